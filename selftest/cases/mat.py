M='mat/mat_io.go'; A='mat/mat.go'
def b(n,*e,ids=('C21',)): return dict(name='mat-'+n,edits=list(e),bug=list(ids))
def ok(n,*e): return dict(name='ok-mat-'+n,edits=list(e),ok=True)
src=open('/repo/'+M).read(); asrc=open('/repo/'+A).read()
def fn(name,s=src):
    i=s.index('func '+name); j=s.index('\n}\n',i)+3; return s[i:j]
LS=fn('readFromLibsvm'); CS=fn('readFromCsv'); RD=fn('recordsToDenseMat'); RC=fn('recordsToCSRMat')
def inl(*e): return (M,LS,rep(LS,*e))
def inc(*e): return (M,CS,rep(CS,*e))
def rep(s,*e):
    for o,n in e:
        assert o in s,o
        s=s.replace(o,n,1)
    return s
TRIM=CS[CS.index('		// leading and trailing'):CS.index('		if line == ""')]
LIM='		rows++\n		if limit > 0 && rows == limit {\n			break\n		}\n'
CCOL=CS[CS.index('		records = records[:0]'):CS.index('		err = f(records)')]
UNI=(M,'	"unicode"\n','')
cases=[
b('trimspace',UNI,inc((TRIM,'		line = strings.TrimSpace(line)\n'))),
b('trimspace-if',UNI,inc((TRIM,'		if delimiter != "\\t" {\n			line = strings.TrimSpace(line)\n		} else {\n			line = strings.TrimRight(line, "\\r\\n")\n		}\n'))),
b('blank-trimspace',inc(('if line == "" {','if strings.TrimSpace(line) == "" {'))),
b('trimfunc-any',inc(('unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)','unicode.IsSpace(r) || !strings.ContainsRune(delimiter, r)'))),
b('trimdelim',UNI,inc((TRIM,'		line = strings.TrimSpace(line)\n		line = strings.TrimSuffix(line, delimiter)\n'))),
b('doublespace',inl(('				continue\n','				break\n'))),
b('cols0',(M,'if mat.Rows == 0 {','if mat.Cols == 0 {')),
b('colsless',(M,'else if mat.Cols != len(records) {','else if mat.Cols > len(records) {')),
b('colsfirst',(M,'	} else if mat.Cols != len(records) {','	} else if mat.Rows == 1 && mat.Cols != len(records) {')),
b('norows',(M,'	mat.Rows++\n	return nil','	if len(records) > 0 {\n		mat.Rows++\n	}\n	return nil')),
b('ragged',(M,'		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))\n','		mat.Cols = len(records)\n')),
b('limitgt',inc(('rows == limit','rows > limit'))),
b('limitgt-l',inl(('rows == limit','rows > limit'))),
b('limit1',inc(('limit > 0 && rows','limit > 1 && rows'))),
b('limitearly',inc((LIM,'		rows++\n		if limit > 0 && rows+1 == limit {\n			break\n		}\n'))),
b('limitnone',inl((LIM,'		rows++\n		if rows == limit+1 {\n			break\n		}\n'))),
b('eofdrop',inc(('		if err != nil && err != io.EOF {\n			return err\n		}\n','		if err == io.EOF {\n			break\n		}\n		if err != nil {\n			return err\n		}\n'))),
b('errdrop',inl(('		if err != nil && err != io.EOF {\n			return err\n		}\n','		if err != nil && err != io.EOF {\n			break\n		}\n'))),
b('noreset',inl(('		records = records[:0]\n',''))),
b('reset1',inc(('		records = records[:0]\n','		if rows > 0 {\n			records = records[:0]\n		}\n'))),
b('startalways',inc(('	if skipFirstColumn {\n','	if !skipFirstColumn {\n'))),
b('start2',inl(('startIndex = 1','startIndex = 2'))),
b('lastfield',inc(('col < len(tokens)','col < len(tokens)-1'))),
b('firstonly',inl(('col < len(tokens)','col <= startIndex && col < len(tokens)'))),
b('col',inc(('col - startIndex, value','col, value'))) if False else b('col-swap',inl(('pair[0], 10, 32','pair[1], 10, 32'),('ParseFloat(pair[1], 64)','ParseFloat(pair[0], 64)'))),
b('delimconst',inc(('strings.Split(line, delimiter)','strings.Split(line, ",")'))),
b('splitn',inc(('strings.Split(line, delimiter)','strings.SplitN(line, delimiter, 100)'))),
b('f32',inc(('ParseFloat(tokens[col], 64)','ParseFloat(tokens[col], 32)'))),
b('f32-l',inl(('ParseFloat(pair[1], 64)','ParseFloat(pair[1], 32)'))),
b('hex',inl(('pair[0], 10, 32','pair[0], 0, 32'))),
b('default0',inc(('value = defValue','value = 0'))),
b('defaulterr',inc(('					return fmt.Errorf("can\'t convert to float %s: %s", tokens[col], err.Error())','					fvalue = defValue'))),
b('defaultdash',inc(('if len(tokens[col]) == 0 {','if len(tokens[col]) == 0 || tokens[col] == "-" {'))),
b('skipempty',inc(('				value = defValue\n','				continue\n'))),
b('colon3',inl(('len(pair) != 2','len(pair) < 2'))),
b('intcol',inl(('columnUint64, err := strconv.ParseUint(pair[0], 10, 32)\n			column := int(columnUint64)','column, err := strconv.Atoi(pair[0])'))),
b('nocolcheck',(M,'		if i != r.column {\n			return fmt.Errorf("wrong column number for dense matrix")\n		}\n','		if i < r.column {\n			return fmt.Errorf("wrong column number for dense matrix")\n		}\n')),
b('heads-len',(M,'append(mat.RowHeaders, len(mat.Values))','append(mat.RowHeaders, len(records))')),
b('heads-none',(M,'	mat.RowHeaders = append(mat.RowHeaders, 0)\n','')),
b('heads-nonempty',(M,'	mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n','	if len(records) > 0 {\n		mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n	}\n')),
b('heads-before',(M,RC,RC.replace('	for _, r','	mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n	for _, r').replace('	}\n	mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n','	}\n'))),
b('skipzero',(M,RC,RC.replace('		mat.Values','		if r.value == 0 {\n			continue\n		}\n		mat.Values'))),
b('skipzero-one',(M,RC,RC.replace('		mat.ColIndexes','		if r.value == 0 {\n			continue\n		}\n		mat.ColIndexes'))),
b('csr-index',(M,'for _, r := range records {\n		mat.Values = append(mat.Values, r.value)\n		mat.ColIndexes = append(mat.ColIndexes, r.column)','for i, r := range records {\n		mat.Values = append(mat.Values, r.value)\n		mat.ColIndexes = append(mat.ColIndexes, i)')),
b('csr-reverse',(M,'mat.ColIndexes = append(mat.ColIndexes, r.column)','mat.ColIndexes = append(mat.ColIndexes, records[0].column+r.column)')),
b('file-limit',(M,'return CSRMatFromLibsvm(bufio.NewReader(reader), limit, skipFirstColumn)','return CSRMatFromLibsvm(bufio.NewReader(reader), 0, skipFirstColumn)')),
b('file-skip',(M,'return DenseMatFromCsv(bufio.NewReader(reader), limit, skipFirstColumn, delimiter, defValue)','return DenseMatFromCsv(bufio.NewReader(reader), limit, true, delimiter, defValue)')),
b('file-def',(M,'return DenseMatFromCsv(bufio.NewReader(reader), limit, skipFirstColumn, delimiter, defValue)','return DenseMatFromCsv(bufio.NewReader(reader), limit, skipFirstColumn, delimiter, 0)')),
b('file-nil',(M,'	return mat, err\n}','	if mat.Rows == 0 {\n		mat = &DenseMat{}\n	}\n	return mat, err\n}')),
b('zero-shape',(A,'make([]float64, rows*cols)','make([]float64, rows*cols+1)')),
b('zero-swap',(A,'		Cols:   cols,\n		Rows:   rows,\n','		Cols:   rows,\n		Rows:   cols,\n')),
b('array-less',(A,'if len(values) != cols*rows {','if len(values) < cols*rows {')),
b('array-swap',(A,'	mat.Cols = cols\n	mat.Rows = rows\n','	mat.Cols = rows\n	mat.Rows = cols\n')),
b('array-rows',(A,'	return len(m.RowHeaders) - 1','	return len(m.RowHeaders)')),
b('csr-lasthead',(A,'	mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))\n	return mat, nil','	return mat, nil')),
b('csr-col',(A,'append(mat.ColIndexes, j)','append(mat.ColIndexes, i)')),
b('csr-cols',(A,'for j := 0; j < cols; j++','for j := 0; j < rows; j++')),
b('csr-head1',(A,'append(mat.RowHeaders, len(mat.ColIndexes))\n		for','append(mat.RowHeaders, i)\n		for')),
b('csr-headlast',(A,'	mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))\n	return mat, nil','	mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes)-cols)\n	return mat, nil')),

ok('limitge',inc(('rows == limit','rows >= limit'))),
ok('limitfor',inc(('	rows := 0\n',''),('	for {\n','	for rows := 0; limit <= 0 || rows < limit; rows++ {\n'),(LIM,''))),
ok('trimright',UNI,inc((TRIM,'		line = strings.TrimRight(line, "\\r\\n")\n'))),
ok('trimhelper',inc((TRIM,'		line = trimLine(line, delimiter)\n')),(M,'// WriteStr writes','func trimLine(line, delimiter string) string {\n	return strings.TrimFunc(line, func(r rune) bool {\n		return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)\n	})\n}\n\n// WriteStr writes')),
ok('fields',inl(('strings.Split(line, " ")','strings.Fields(line)'),)),
ok('cut',inl(('''			pair := strings.Split(tokens[col], ":")
			if len(pair) != 2 {
				return fmt.Errorf("can't parse %s", tokens[col])
			}
''','''			key, val, found := strings.Cut(tokens[col], ":")
			if !found {
				return fmt.Errorf("can't parse %s", tokens[col])
			}
			pair := [2]string{key, val}
'''))) if False else ok('cut',inl(('''			pair := strings.Split(tokens[col], ":")
			if len(pair) != 2 {
				return fmt.Errorf("can't parse %s", tokens[col])
			}
''','''			key, val, found := strings.Cut(tokens[col], ":")
			if !found {
				return fmt.Errorf("can't parse %s", tokens[col])
			}
'''),('ParseUint(pair[0]','ParseUint(key'),('%s: %s", pair[0]','%s: %s", key'),('ParseFloat(pair[1]','ParseFloat(val'),('%s: %s", pair[1]','%s: %s", val'))),
ok('range',inc((CCOL,'''		records = records[:0]
		for col, token := range tokens[startIndex:] {
			value := defValue
			if token != "" {
				fvalue, err := strconv.ParseFloat(token, 64)
				if err != nil {
					return fmt.Errorf("can't convert to float %s: %s", token, err.Error())
				}
				value = fvalue
			}
			records = append(records, libsvmRecord{column: col, value: value})
		}
'''))),
ok('helper-token',inc(('''			var value float64
			if len(tokens[col]) == 0 {
				value = defValue
			} else {
				fvalue, err := strconv.ParseFloat(tokens[col], 64)
				if err != nil {
					return fmt.Errorf("can't convert to float %s: %s", tokens[col], err.Error())
				}
				value = fvalue
			}
''','''			value, err := parseField(tokens[col], defValue)
			if err != nil {
				return err
			}
''')),(M,'// WriteStr writes','''func parseField(token string, defValue float64) (float64, error) {
	if token == "" {
		return defValue, nil
	}
	value, err := strconv.ParseFloat(token, 64)
	if err != nil {
		return 0, fmt.Errorf("can't convert to float %s: %s", token, err.Error())
	}
	return value, nil
}

// WriteStr writes''')),
ok('newrecords',inc(('		records = records[:0]\n','		records := make([]libsvmRecord, 0, len(tokens))\n'),('	records := make([]libsvmRecord, 0)\n',''))),
ok('prealloc',inc(('		records = records[:0]\n','		if len(tokens) < startIndex {\n			return fmt.Errorf("too few columns")\n		}\n		records := make([]libsvmRecord, len(tokens)-startIndex)\n'),('	records := make([]libsvmRecord, 0)\n',''),('records = append(records, libsvmRecord{col - startIndex, value})','records[col-startIndex] = libsvmRecord{col - startIndex, value}'))),
ok('twochecks',(M,RD,'''func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
	if mat.Rows > 0 && mat.Cols != len(records) {
		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
	}
	mat.Cols = len(records)
	for i := range records {
		if records[i].column != i {
			return fmt.Errorf("wrong column number for dense matrix")
		}
		mat.Values = append(mat.Values, records[i].value)
	}
	mat.Rows += 1
	return nil
}
''')),
ok('checkfirst',(M,RD,'''func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
	if mat.Rows == 0 {
		mat.Cols = len(records)
	} else if mat.Cols != len(records) {
		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
	}
	for i, r := range records {
		if i != r.column {
			return fmt.Errorf("wrong column number for dense matrix")
		}
	}
	for _, r := range records {
		mat.Values = append(mat.Values, r.value)
	}
	mat.Rows++
	return nil
}
''')),
ok('method',(M,RD,RD.replace('func recordsToDenseMat(mat *DenseMat, records','func (mat *DenseMat) addRow(records')),(M,'return recordsToDenseMat(mat, records)','return mat.addRow(records)'),(M,'return recordsToDenseMat(mat, records)','return mat.addRow(records)')),
ok('csrinit',(M,'	mat := &CSRMat{}\n	mat.RowHeaders = append(mat.RowHeaders, 0)\n','	mat := &CSRMat{RowHeaders: []int{0}}\n')),
ok('csrcols',(M,'append(mat.RowHeaders, len(mat.Values))','append(mat.RowHeaders, len(mat.ColIndexes))')),
ok('array-alias',(A,'	mat.Values = append(mat.Values, values...)\n	mat.Cols','	mat.Values = values\n	mat.Cols')),
ok('array-lit',(A,fn('DenseMatFromArray',asrc),'''func DenseMatFromArray(values []float64, rows int, cols int) (DenseMat, error) {
	if rows*cols != len(values) {
		return DenseMat{}, fmt.Errorf("wrong dimensions")
	}
	return DenseMat{Values: append([]float64{}, values...), Cols: cols, Rows: rows}, nil
}
''')),
ok('array-copy',(A,fn('DenseMatFromArray',asrc),'''func DenseMatFromArray(values []float64, rows int, cols int) (DenseMat, error) {
	mat := DenseMat{}
	if len(values) != cols*rows {
		return mat, fmt.Errorf("wrong dimensions")
	}
	mat = DenseMatZero(rows, cols)
	copy(mat.Values, values)
	return mat, nil
}
''')),
ok('csr-formula',(A,'append(mat.RowHeaders, len(mat.ColIndexes))\n		for','append(mat.RowHeaders, i*cols)\n		for'),(A,'	mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))\n	return mat, nil','	mat.RowHeaders = append(mat.RowHeaders, rows*cols)\n	return mat, nil')),
ok('csr-first0',(A,'	mat.RowHeaders = make([]int, 0, rows+1)\n','	mat.RowHeaders = make([]int, 0, rows+1)\n	mat.RowHeaders = append(mat.RowHeaders, 0)\n'),(A,'		mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))\n		for','		for'),(A,'			mat.ColIndexes = append(mat.ColIndexes, j)\n		}\n	}\n	mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))\n','			mat.ColIndexes = append(mat.ColIndexes, j)\n		}\n		mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))\n	}\n')),
ok('csr-index',(A,'	mat.ColIndexes = make([]int, 0, len(values))\n','	mat.ColIndexes = make([]int, len(values))\n'),(A,'append(mat.RowHeaders, len(mat.ColIndexes))\n		for','append(mat.RowHeaders, i*cols)\n		for'),(A,'mat.ColIndexes = append(mat.ColIndexes, j)','mat.ColIndexes[i*cols+j] = j')),
ok('locals',(M,fn('DenseMatFromCsv('),'''func DenseMatFromCsv(reader *bufio.Reader,
	limit int,
	skipFirstColumn bool,
	delimiter string,
	defValue float64,
) (*DenseMat, error) {
	var values []float64
	rows, cols := 0, 0
	err := readFromCsv(reader, limit, skipFirstColumn, delimiter, defValue, func(records []libsvmRecord) error {
		if rows == 0 {
			cols = len(records)
		} else if cols != len(records) {
			return fmt.Errorf("different number of columns (%d != %d)", cols, len(records))
		}
		for _, r := range records {
			values = append(values, r.value)
		}
		rows++
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("unable to parse csv format to dense matrix: %s", err.Error())
	}
	return &DenseMat{Values: values, Cols: cols, Rows: rows}, nil
}
''')),
ok('readline',inc(('''		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
''','''		line, err := readLine(reader)
		if err != nil {
			return err
		}
''')),inl(('''		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
''','''		line, err := readLine(reader)
		if err != nil {
			return err
		}
''')),(M,'// WriteStr writes','''func readLine(reader *bufio.Reader) (string, error) {
	line, err := reader.ReadString('\\n')
	if err == io.EOF {
		err = nil
	}
	return line, err
}

// WriteStr writes''')),
ok('noclosure',(M,'	f := func(records []libsvmRecord) error {\n		return recordsToCSRMat(mat, records)\n	}\n	err := readFromLibsvm(reader, limit, skipFirstColumn, f)','	err := readFromLibsvm(reader, limit, skipFirstColumn, mat.addRow)'),(M,RC,RC.replace('func recordsToCSRMat(mat *CSRMat, records','func (mat *CSRMat) addRow(records'))),
]

# larger rewrites of util, the matrix readers and the sklearn loader
U = 'util/util.go'; M = 'mat/mat_io.go'; SK = 'skensemble_io.go'
u = open('/repo/util/util.go').read(); m = open('/repo/mat/mat_io.go').read(); s = open('/repo/skensemble_io.go').read()
def seg(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
def ok(name, *edits): return dict(name='ok-mix3-' + name, edits=list(edits), ok=True)
params = seg(u, '	params := make(stringParams)', '	return params, nil')
f64s = seg(u, '	valuesStr := strings.Split(valueStr, " ")\n	values := make([]float64', 'func (p *stringParams) ToUint32Slice')
u32s = seg(u, '	valuesStr := strings.Split(valueStr, " ")\n	values := make([]uint32', 'func (p *stringParams) ToInt32Slice')
i32s = seg(u, '	valuesStr := strings.Split(valueStr, " ")\n	values := make([]int32', 'func (p *stringParams) Contains')
toInt = seg(u, '	valueStr, isFound := (*p)[key]\n	if !isFound {\n		return 0, ', 'func (p *stringParams) ToString')
comp = seg(u, '	valueStr, isFound := (*p)[key]\n	if !isFound {\n		return fmt.', 'func (p *stringParams) ToStrSlice')
fnz = seg(u, '	pos := uint32(0)', '	return 0, fmt.Errorf("no bits set")')
nsb = seg(u, '	numberOfSetBitsInBitsetElement', '	return count\n}')
cb = seg(u, '	max := values[0]', '	return bitset\n}')
cbv = seg(u, '	nBitsetValues := max / 32', '	bitset := make')
soft = seg(u, '	// shift by the maximum', '\n// Float64FromBytes')
bits = seg(u, '	var bits uint64', '	return math.Float64frombits(bits)')
lsv = seg(m, '	records := make([]libsvmRecord, 0)\n	startIndex := 0', 'func readFromCsv')
csv = seg(m, '	records := make([]libsvmRecord, 0)\n	rows := 0', '// WriteStr')
dense = seg(m, 'func recordsToDenseMat', 'func recordsToCSRMat')
csr = seg(m, 'func recordsToCSRMat', 'func readFromLibsvm')
wr = seg(m, '	if m.Cols*m.Rows', '// ToCsvFile')
lsvTok = seg(m, '			pair := strings.Split(tokens[col], ":")', '		err = f(records)')
csvTok = seg(m, '			var value float64\n', '		err = f(records)')
skCnt = seg(s, '	numLeaves := 0', '	if numLeaves-1')
skConst = seg(s, '		t.nodes = make([]lgNode, 0, 1)', '	// Numerical only')
skNode = seg(s, '		node := lgNode{}\n		refNode', '	origNodeIdxStack := make')
skBase = seg(s, '	base := make([]float64, e.nRaw', '	e.Trees = make')
skTrees = seg(s, '	e.Trees = make', '	return &Ensemble{e,')
skGroups = seg(s, '	e.nRawOutputGroups = gbdt.NClasses', '	e.MaxFeatureIdx')
skDec = seg(s, '	decoder := pickle.NewDecoder', '	e.nRawOutputGroups = gbdt')
cases = [
ok('params-cut', (U, params, '''	params := stringParams{}
	line, err := "", error(nil)
	for line == "" {
		if line, err = reader.ReadString('\\n'); err != nil {
			return nil, err
		}
		line = strings.TrimSpace(line)
	}
	for line != "" {
		switch tokens := strings.Split(line, "="); len(tokens) {
		case 1:
			params[tokens[0]] = ""
		case 2:
			params[tokens[0]] = tokens[1]
		default:
			return nil, fmt.Errorf("meet wrong format while reading params")
		}
		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		}
		line = strings.TrimSpace(line)
	}
''')),
ok('params-count', (U, params, '''	params := make(stringParams)
	var line string
	var err error
	for {
		if line, err = reader.ReadString('\\n'); err != nil {
			return nil, err
		}
		if line = strings.TrimSpace(line); len(line) > 0 {
			break
		}
	}
	for {
		if strings.Count(line, "=") > 1 {
			return nil, fmt.Errorf("meet wrong format while reading params")
		}
		key, value, _ := strings.Cut(line, "=")
		params[key] = value
		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		}
		if line = strings.TrimSpace(line); len(line) == 0 {
			break
		}
	}
''')),
ok('params-put', (U, params, '''	params := make(stringParams)
	line, err := firstLine(reader)
	if err != nil {
		return nil, err
	}
	for {
		if err := params.put(line); err != nil {
			return nil, err
		}
		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		}
		line = strings.TrimSpace(line)
		if line == "" {
			break
		}
	}
'''), (U, 'func ReadParamsUntilBlank', '''// firstLine returns the first line that is not blank
func firstLine(reader *bufio.Reader) (string, error) {
	for {
		line, err := reader.ReadString('\\n')
		if err != nil {
			return "", err
		}
		if line = strings.TrimSpace(line); line != "" {
			return line, nil
		}
	}
}

func (p stringParams) put(line string) error {
	tokens := strings.Split(line, "=")
	if len(tokens) > 2 {
		return fmt.Errorf("meet wrong format while reading params")
	}
	value := ""
	if len(tokens) == 2 {
		value = tokens[1]
	}
	p[tokens[0]] = value
	return nil
}

func ReadParamsUntilBlank''')),
ok('f64-prealloc', (U, f64s, '''	valuesStr := strings.Split(valueStr, " ")
	values := make([]float64, len(valuesStr))
	for i := range valuesStr {
		var err error
		if values[i], err = strconv.ParseFloat(valuesStr[i], 64); err != nil {
			return nil, fmt.Errorf("can't convert %s: %s", key, err.Error())
		}
	}
	return values, nil
}

''')),
ok('slices-each', (U, f64s, '''	var values []float64
	err := eachToken(key, valueStr, func(s string) error {
		value, err := strconv.ParseFloat(s, 64)
		values = append(values, value)
		return err
	})
	if err != nil {
		return nil, err
	}
	return values, nil
}

// eachToken converts the tokens of a list
func eachToken(key, list string, f func(string) error) error {
	for _, s := range strings.Split(list, " ") {
		if err := f(s); err != nil {
			return fmt.Errorf("can't convert %s: %s", key, err.Error())
		}
	}
	return nil
}

'''), (U, u32s, '''	var values []uint32
	err := eachToken(key, valueStr, func(s string) error {
		value, err := strconv.ParseUint(s, 10, 32)
		values = append(values, uint32(value))
		return err
	})
	if err != nil {
		return nil, err
	}
	return values, nil
}

'''), (U, i32s, '''	var values []int32
	err := eachToken(key, valueStr, func(s string) error {
		value, err := strconv.ParseInt(s, 10, 32)
		values = append(values, int32(value))
		return err
	})
	if err != nil {
		return nil, err
	}
	return values, nil
}

''')),
ok('lists-tokens', (U, f64s, f64s.replace('	valuesStr := strings.Split(valueStr, " ")\n', '')), (U, '''		return nil, fmt.Errorf("no %s field", key)
	}
	values := make([]float64''', '''		return nil, fmt.Errorf("no %s field", key)
	}
	values := make([]float64''') if False else (U, f64s.replace('	valuesStr := strings.Split(valueStr, " ")\n', ''), f64s)),
ok('toint-string', (U, toInt, '''	valueStr, err := p.ToString(key)
	if err != nil {
		return 0, err
	}
	value, err := strconv.Atoi(valueStr)
	if err != nil {
		err = fmt.Errorf("can't convert %s: %s", key, err.Error())
		return 0, err
	}
	return value, nil
}

''')),
ok('toint-parseint', (U, '	value, err := strconv.Atoi(valueStr)', '	value64, err := strconv.ParseInt(valueStr, 10, 0)\n	value := int(value64)')),
ok('compare-switch', (U, comp, '''	switch valueStr, isFound := (*p)[key]; {
	case !isFound:
		return fmt.Errorf("no %s field", key)
	case valueStr == rhs:
		return nil
	default:
		return fmt.Errorf("only %s=%s is supported", key, rhs)
	}
}

''')),
ok('fnz-index', (U, fnz, '''	for i, e := range bitset {
		if e == 0 {
			continue
		}
		lowest := e & -e
		return uint32(i)*32 + multiplyDeBruijnBitPosition[(lowest*0x077CB531)>>27], nil
	}
''')),
ok('fnz-shift', (U, fnz, '''	for i := 0; i < len(bitset); i++ {
		e := bitset[i]
		if e != 0 {
			n := uint32(i) << 5
			for e&1 == 0 {
				e >>= 1
				n++
			}
			return n, nil
		}
	}
''')),
ok('fnz-trailing', (U, fnz, '''	for i, e := range bitset {
		if e != 0 {
			return uint32(32*i + bits.TrailingZeros32(e)), nil
		}
	}
'''), (U, '	"math"\n', '	"math"\n	"math/bits"\n')),
ok('nsb-kernighan', (U, nsb, '''	count := uint32(0)
	for _, e := range bitset {
		for ; e != 0; e &= e - 1 {
			count++
		}
	}
''')),
ok('nsb-func', (U, nsb, '''	count := uint32(0)
	for i := range bitset {
		count += popCount(bitset[i])
	}
'''), (U, '// ConstructBitset return', '''func popCount(e uint32) uint32 {
	e -= (e >> 1) & 0x55555555
	e = e&0x33333333 + e>>2&0x33333333
	e = (e + e>>4) & 0x0F0F0F0F
	return e * 0x01010101 >> 24
}

// ConstructBitset return''')),
ok('cb-round', (U, cbv, '''	nBitsetValues := (max + 31) / 32

''')),
ok('cb-max', (U, cb, '''	max := 0
	for _, v := range values {
		if max < v {
			max = v
		}
	}
	bitset := make([]uint32, max/32+1)
	for _, v := range values {
		bitset[v/32] |= 1 << (uint32(v) % 32)
	}
''')),
ok('cb-set', (U, cb, '''	size := 0
	for _, v := range values {
		if n := v/32 + 1; n > size {
			size = n
		}
	}
	bitset := make([]uint32, size)
	for _, v := range values {
		word := &bitset[v>>5]
		*word |= uint32(1) << uint(v&31)
	}
''')),
ok('soft-slice', (U, soft, '''	if len(rawValues) == 0 {
		return
	}
	largest := rawValues[0]
	for _, v := range rawValues[1:] {
		largest = math.Max(largest, v)
	}
	out := outputValues[startIndex : startIndex+len(rawValues)]
	total := 0.0
	for i, v := range rawValues {
		out[i] = math.Exp(v - largest)
		total += out[i]
	}
	if total == 0.0 {
		return
	}
	for i := range out {
		out[i] /= total
	}
}
''')),
ok('soft-max-helper', (U, soft, '''	max := maxOf(rawValues)
	sum := 0.0
	for i := range rawValues {
		e := math.Exp(rawValues[i] - max)
		sum += e
		outputValues[i+startIndex] = e
	}
	if sum == 0.0 {
		return
	}
	for i := range rawValues {
		outputValues[startIndex+i] = outputValues[startIndex+i] * (1.0 / sum)
	}
}

func maxOf(values []float64) float64 {
	max := math.Inf(-1)
	for _, v := range values {
		if max < v {
			max = v
		}
	}
	return max
}
''')),
ok('bytes-order', (U, bits, '''	var order binary.ByteOrder = binary.BigEndian
	if littleEndian {
		order = binary.LittleEndian
	}
	bits := order.Uint64(bytes)
''')),
ok('bytes-hand', (U, bits, '''	var bits uint64
	for i := 0; i < 8; i++ {
		b := bytes[i]
		if littleEndian {
			b = bytes[7-i]
		}
		bits = bits<<8 | uint64(b)
	}
'''), (U, '	"encoding/binary"\n', '')),
ok('libsvm-while', (M, lsv, '''	var records []libsvmRecord
	for rows := 0; limit <= 0 || rows < limit; rows++ {
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		tokens := strings.Split(strings.TrimSpace(line), " ")
		if len(tokens) == 1 && tokens[0] == "" {
			return nil
		}
		if len(tokens) < 2 {
			return fmt.Errorf("too few columns")
		}
		if skipFirstColumn {
			tokens = tokens[1:]
		}
		records = records[:0]
		for _, token := range tokens {
			if token == "" {
				continue
			}
			record, err := parseRecord(token)
			if err != nil {
				return err
			}
			records = append(records, record)
		}
		if err := f(records); err != nil {
			return err
		}
	}
	return nil
}

func parseRecord(token string) (libsvmRecord, error) {
	pair := strings.Split(token, ":")
	if len(pair) != 2 {
		return libsvmRecord{}, fmt.Errorf("can't parse %s", token)
	}
	column, err := strconv.ParseUint(pair[0], 10, 32)
	if err != nil {
		return libsvmRecord{}, fmt.Errorf("can't convert to float %s: %s", pair[0], err.Error())
	}
	value, err := strconv.ParseFloat(pair[1], 64)
	if err != nil {
		return libsvmRecord{}, fmt.Errorf("can't convert to float %s: %s", pair[1], err.Error())
	}
	return libsvmRecord{column: int(column), value: value}, nil
}

''')),
ok('libsvm-cut', (M, lsvTok, '''			name, text, found := strings.Cut(tokens[col], ":")
			if !found || strings.Contains(text, ":") {
				return fmt.Errorf("can't parse %s", tokens[col])
			}
			column, err := strconv.ParseUint(name, 10, 32)
			if err != nil {
				return fmt.Errorf("can't convert to float %s: %s", name, err.Error())
			}
			value, err := strconv.ParseFloat(text, 64)
			if err != nil {
				return fmt.Errorf("can't convert to float %s: %s", text, err.Error())
			}
			records = append(records, libsvmRecord{int(column), value})
		}

''')),
ok('libsvm-fresh', (M, '''		records = records[:0]
		for col := startIndex; col < len(tokens); col++ {
			if len(tokens[col]) == 0 {''', '''		records := make([]libsvmRecord, 0, len(tokens))
		for col := startIndex; col < len(tokens); col++ {
			if len(tokens[col]) == 0 {'''), (M, '''	records := make([]libsvmRecord, 0)
	startIndex := 0
''', '''	startIndex := 0
''')),
ok('lines-helper', (M, lsv, lsv.replace('''		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		line = strings.TrimSpace(line)
''', '''		line, err := readLine(reader, unicode.IsSpace)
		if err != nil {
			return err
		}
''')), (M, csv, csv.replace('''		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		// leading and trailing delimiters stand for absent values
		line = strings.TrimFunc(line, func(r rune) bool {
			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
		})
''', '''		// leading and trailing delimiters stand for absent values
		line, err := readLine(reader, func(r rune) bool {
			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
		})
		if err != nil {
			return err
		}
''')), (M, 'func recordsToDenseMat', '''// readLine reads a line; it is empty at the end of the input
func readLine(reader *bufio.Reader, trim func(rune) bool) (string, error) {
	line, err := reader.ReadString('\\n')
	if err != nil && err != io.EOF {
		return "", err
	}
	return strings.TrimFunc(line, trim), nil
}

func recordsToDenseMat''')),
ok('csv-while', (M, csv, '''	isBlank := func(r rune) bool {
		return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
	}
	var records []libsvmRecord
	for rows := 0; limit <= 0 || rows < limit; rows++ {
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		line = strings.TrimFunc(line, isBlank)
		if line == "" {
			return nil
		}
		tokens := strings.Split(line, delimiter)
		if skipFirstColumn {
			tokens = tokens[1:]
		}
		records = records[:0]
		for i, token := range tokens {
			value := defValue
			if token != "" {
				if value, err = strconv.ParseFloat(token, 64); err != nil {
					return fmt.Errorf("can't convert to float %s: %s", token, err.Error())
				}
			}
			records = append(records, libsvmRecord{i, value})
		}
		if err = f(records); err != nil {
			return err
		}
	}
	return nil
}

''')),
ok('csv-parse', (M, csvTok, '''			value, err := parseValue(tokens[col], defValue)
			if err != nil {
				return err
			}
			records = append(records, libsvmRecord{col - startIndex, value})
		}
'''), (M, 'func recordsToDenseMat', '''func parseValue(token string, defValue float64) (float64, error) {
	if len(token) == 0 {
		return defValue, nil
	}
	value, err := strconv.ParseFloat(token, 64)
	if err != nil {
		return 0, fmt.Errorf("can't convert to float %s: %s", token, err.Error())
	}
	return value, nil
}

func recordsToDenseMat''')),
ok('dense-two-pass', (M, dense, '''func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
	if mat.Rows > 0 && len(records) != mat.Cols {
		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
	}
	for i := range records {
		if records[i].column != i {
			return fmt.Errorf("wrong column number for dense matrix")
		}
	}
	for _, r := range records {
		mat.Values = append(mat.Values, r.value)
	}
	mat.Cols = len(records)
	mat.Rows++
	return nil
}

''')),
ok('dense-method', (M, dense, '''func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
	return mat.appendRow(records)
}

func (m *DenseMat) appendRow(records []libsvmRecord) error {
	for i := 0; i < len(records); i++ {
		r := &records[i]
		if r.column != i {
			return fmt.Errorf("wrong column number for dense matrix")
		}
		m.Values = append(m.Values, r.value)
	}
	switch {
	case m.Rows == 0:
		m.Cols = len(records)
	case m.Cols != len(records):
		return fmt.Errorf("different number of columns (%d != %d)", m.Cols, len(records))
	}
	m.Rows += 1
	return nil
}

''')),
ok('csr-row', (M, csr, '''func recordsToCSRMat(mat *CSRMat, records []libsvmRecord) error {
	end := mat.RowHeaders[len(mat.RowHeaders)-1] + len(records)
	for i := range records {
		mat.ColIndexes = append(mat.ColIndexes, records[i].column)
		mat.Values = append(mat.Values, records[i].value)
	}
	mat.RowHeaders = append(mat.RowHeaders, end)
	return nil
}

''')),
ok('mat-closures', (M, '''	f := func(records []libsvmRecord) error {
		return recordsToCSRMat(mat, records)
	}
	err := readFromLibsvm(reader, limit, skipFirstColumn, f)
''', '''	err := readFromLibsvm(reader, limit, skipFirstColumn, func(records []libsvmRecord) error {
		for _, r := range records {
			mat.Values = append(mat.Values, r.value)
			mat.ColIndexes = append(mat.ColIndexes, r.column)
		}
		mat.RowHeaders = append(mat.RowHeaders, len(mat.ColIndexes))
		return nil
	})
'''), (M, csr, '')),
ok('mat-methods', (M, '''	f := func(records []libsvmRecord) error {
		return recordsToCSRMat(mat, records)
	}
	err := readFromLibsvm(reader, limit, skipFirstColumn, f)
''', '''	err := readFromLibsvm(reader, limit, skipFirstColumn, mat.addRow)
'''), (M, csr, '''func (m *CSRMat) addRow(records []libsvmRecord) error {
	for _, r := range records {
		m.Values = append(m.Values, r.value)
		m.ColIndexes = append(m.ColIndexes, r.column)
	}
	m.RowHeaders = append(m.RowHeaders, len(m.Values))
	return nil
}

''')),
ok('mat-open-helper', (M, '''	reader, err := os.Open(filename)
	if err != nil {
		return nil, fmt.Errorf("unable to open %s: %s", filename, err.Error())
	}
	defer reader.Close()
	return CSRMatFromLibsvm(bufio.NewReader(reader), limit, skipFirstColumn)
''', '''	var mat *CSRMat
	err := withFile(filename, func(reader *bufio.Reader) (err error) {
		mat, err = CSRMatFromLibsvm(reader, limit, skipFirstColumn)
		return err
	})
	return mat, err
'''), (M, 'func recordsToDenseMat', '''// withFile runs f on the contents of a file
func withFile(filename string, f func(*bufio.Reader) error) error {
	file, err := os.Open(filename)
	if err != nil {
		return fmt.Errorf("unable to open %s: %s", filename, err.Error())
	}
	defer file.Close()
	return f(bufio.NewReader(file))
}

func recordsToDenseMat''')),
ok('write-rows', (M, wr, '''	if len(m.Values) != m.Rows*m.Cols {
		return fmt.Errorf("matrix unconsistent")
	}
	if len(m.Values) == 0 {
		_, err := fmt.Fprint(writer, "\\n")
		return err
	}
	for i := 0; i < m.Rows; i++ {
		row := m.Values[i*m.Cols : (i+1)*m.Cols]
		for j, v := range row {
			if j > 0 {
				if _, err := fmt.Fprint(writer, delimiter); err != nil {
					return err
				}
			}
			if _, err := fmt.Fprintf(writer, "%.19g", v); err != nil {
				return err
			}
		}
		if _, err := fmt.Fprint(writer, "\\n"); err != nil {
			return err
		}
	}
	return nil
}

''')),
ok('write-sep', (M, wr, '''	if m.Cols*m.Rows != len(m.Values) {
		return fmt.Errorf("matrix unconsistent")
	}
	if m.Cols == 0 || m.Rows == 0 {
		_, err := fmt.Fprintln(writer)
		return err
	}
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			end := delimiter
			if j == m.Cols-1 {
				end = "\\n"
			}
			if _, err := fmt.Fprintf(writer, "%.19g%s", m.Values[i*m.Cols+j], end); err != nil {
				return err
			}
		}
	}
	return nil
}

''')),
ok('sk-count', (SK, skCnt, '''	numNodes := 0
	for i := range tree.Tree.Nodes {
		if tree.Tree.Nodes[i].LeftChild >= 0 {
			numNodes++
		}
	}
	numLeaves := len(tree.Tree.Nodes) - numNodes

''')),
ok('sk-const-lit', (SK, skConst, '''		node := numericalNode(0, 0, 0.0, 0)
		node.Flags |= leftLeaf | rightLeaf
		t.nodes = []lgNode{node}
		t.leafValues = []float64{tree.Tree.Values[0]*scale + base}
		return t, nil
	}

''')),
ok('sk-node-leaf-closure', (SK, skNode, '''		refNode := tree.Tree.Nodes[idx]
		node := numericalNode(uint32(refNode.Feature), 0, refNode.Threshold, 0)
		if isLeaf(refNode.LeftChild) {
			node.Flags |= leftLeaf
			node.Left = addLeaf(refNode.LeftChild)
		}
		if isLeaf(refNode.RightChild) {
			node.Flags |= rightLeaf
			node.Right = addLeaf(refNode.RightChild)
		}
		return node, nil
	}

'''), (SK, '	// Numerical only\n', '''	isLeaf := func(idx int) bool {
		return tree.Tree.Nodes[idx].LeftChild < 0
	}
	addLeaf := func(idx int) uint32 {
		t.leafValues = append(t.leafValues, tree.Tree.Values[idx]*scale+base)
		return uint32(len(t.leafValues) - 1)
	}
	// Numerical only
''')),
ok('sk-base-switch', (SK, skBase, '''	var base []float64
	switch prior := gbdt.InitEstimator.Prior; gbdt.InitEstimator.Name {
	case "LogOddsEstimator":
		base = make([]float64, e.nRawOutputGroups)
		for i := range base {
			base[i] = prior[0]
		}
	case "PriorProbabilityEstimator":
		if len(prior) != e.nRawOutputGroups {
			return nil, fmt.Errorf("len(gbdt.InitEstimator.Prior) != len(base)")
		}
		base = prior
	default:
		return nil, fmt.Errorf("unknown initial estimator \\"%s\\"", gbdt.InitEstimator.Name)
	}

''')),
ok('sk-base-copy', (SK, '		base = gbdt.InitEstimator.Prior\n', '		copy(base, gbdt.InitEstimator.Prior)\n')),
ok('sk-base-helper', (SK, skBase, '''	base, err := initialValues(&gbdt, e.nRawOutputGroups)
	if err != nil {
		return nil, err
	}

'''), (SK, '// SKEnsembleFromReader reads', '''// initialValues returns the value every output starts with
func initialValues(gbdt *pickle.SklearnGradientBoosting, n int) ([]float64, error) {
	switch gbdt.InitEstimator.Name {
	case "LogOddsEstimator":
		base := make([]float64, n)
		for i := range base {
			base[i] = gbdt.InitEstimator.Prior[0]
		}
		return base, nil
	case "PriorProbabilityEstimator":
		if len(gbdt.InitEstimator.Prior) != n {
			return nil, fmt.Errorf("len(gbdt.InitEstimator.Prior) != len(base)")
		}
		return gbdt.InitEstimator.Prior, nil
	}
	return nil, fmt.Errorf("unknown initial estimator \\"%s\\"", gbdt.InitEstimator.Name)
}

// SKEnsembleFromReader reads''')),
ok('sk-trees-flat', (SK, skTrees, '''	e.Trees = make([]lgTree, 0, len(gbdt.Estimators))
	for i, estimator := range gbdt.Estimators {
		init := 0.0
		if i < e.nRawOutputGroups {
			init = base[i]
		}
		tree, err := lgTreeFromSklearnDecisionTreeRegressor(estimator, scale, init)
		if err != nil {
			return nil, fmt.Errorf("error while creating %d tree: %s", i, err.Error())
		}
		if err := tree.validate(e.NFeatures()); err != nil {
			return nil, fmt.Errorf("error while creating %d tree: %s", i, err.Error())
		}
		e.Trees = append(e.Trees, tree)
	}
''')),
ok('sk-trees-first', (SK, skTrees, '''	e.Trees = make([]lgTree, 0, len(gbdt.Estimators))
	for i := 0; i < gbdt.NEstimators; i++ {
		for j := 0; j < e.nRawOutputGroups; j++ {
			treeNum := len(e.Trees)
			start := 0.0
			if i == 0 {
				start = base[j]
			}
			tree, err := lgTreeFromSklearnDecisionTreeRegressor(gbdt.Estimators[treeNum], scale, start)
			if err == nil {
				err = tree.validate(e.NFeatures())
			}
			if err != nil {
				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
			}
			e.Trees = append(e.Trees, tree)
		}
	}
''')),
ok('sk-groups-switch', (SK, skGroups, '''	switch n := gbdt.NClasses; {
	case n < 1:
		return nil, fmt.Errorf("number of classes (%d) should be > 0", n)
	case n == 2:
		e.nRawOutputGroups = 1
	default:
		e.nRawOutputGroups = n
	}

''')),
ok('sk-dec-helper', (SK, skDec, '''	gbdt, err := readGradientBoosting(reader)
	if err != nil {
		return nil, err
	}

'''), (SK, '// SKEnsembleFromReader reads', '''func readGradientBoosting(reader *bufio.Reader) (*pickle.SklearnGradientBoosting, error) {
	d := pickle.NewDecoder(reader)
	obj, err := d.Decode()
	if err != nil {
		return nil, fmt.Errorf("error while decoding: %s", err.Error())
	}
	gbdt := &pickle.SklearnGradientBoosting{}
	if err := pickle.ParseClass(gbdt, obj); err != nil {
		return nil, fmt.Errorf("error while parsing gradient boosting class: %s", err.Error())
	}
	return gbdt, nil
}

// SKEnsembleFromReader reads''')),
]
# not decided (see DESIGN.md): loops over the bits of a word, bytes put together by hand
cases = [c for c in cases if c['name'][8:] not in ('lists-tokens', 'nsb-kernighan', 'fnz-shift', 'bytes-hand')]

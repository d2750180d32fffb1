M='mat/mat_io.go'; L='lgensemble_io.go'; X='xgensemble_io.go'; S='skensemble_io.go'
def b(n,*e,ids=('C22',)): return dict(name='files-'+n,edits=list(e),bug=list(ids))
def ok(n,*e): return dict(name='ok-files-'+n,edits=list(e),ok=True)
def cut(f,a,z):
    s=open('/repo/'+f).read(); s=s[s.index(a):]; return s[:s.index(z)] if z else s
WS=cut(M,'func (m *DenseMat) WriteStr','// ToCsvFile')
CF=cut(M,'func (m *DenseMat) ToCsvFile',None)
DL='	defer reader.Close()\n	mat, err := DenseMatFromLibsvm('
LG=cut(L,'func LGEnsembleFromFile','// unmarshalNode')
LOOP=cut(M,'	for i := 0; i < m.Rows; i++ {','	return nil\n}\n\n// ToCsvFile')
HEAD='	f, err := os.Create(filename)\n	if err != nil {\n		return err\n	}\n'
cases=[
b('noclose',(M,DL,'	mat, err := DenseMatFromLibsvm(')),
b('noclose-lg',(L,'	defer reader.Close()\n','')),
b('noclose-xgblin',('xgblinear_io.go','	defer reader.Close()\n','')),
b('noclose-sk',(S,'	defer reader.Close()\n','')),
b('close-early',(L,'	defer reader.Close()\n	bufReader := bufio.NewReader(reader)\n','	bufReader := bufio.NewReader(reader)\n	reader.Close()\n')),
b('close-on-success',(M,DL,'	mat, err := DenseMatFromLibsvm('),(M,'	return mat, err\n}\n','	if err == nil {\n		reader.Close()\n	}\n	return mat, err\n}\n')),
b('close-only-error',(X,'	defer reader.Close()\n	bufReader := bufio.NewReader(reader)\n	return XGEnsembleFromReader(bufReader, loadTransformation)','	bufReader := bufio.NewReader(reader)\n	m, err := XGEnsembleFromReader(bufReader, loadTransformation)\n	if err != nil {\n		reader.Close()\n		return nil, err\n	}\n	return m, nil')),
b('defer-late',(L,'	defer reader.Close()\n	bufReader := bufio.NewReader(reader)\n','	bufReader := bufio.NewReader(reader)\n	if _, err := bufReader.Peek(1); err != nil {\n		return nil, err\n	}\n	defer reader.Close()\n')),
b('noclose-write',(M,'	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n','')),
b('write-close-ignored',(M,'	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n','	f.Close()\n')),
b('write-defer-close',(M,HEAD,HEAD+'	defer f.Close()\n'),(M,'	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n','')),
b('noflush',(M,'	if err == nil {\n		err = buf.Flush()\n	}\n','')),
b('flush-ignored',(M,'		err = buf.Flush()\n','		buf.Flush()\n')),
b('flush-after-close',(M,CF,HEAD.join(['func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {\n','''	buf := bufio.NewWriter(f)
	err = m.WriteStr(buf, delimiter)
	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
	if err == nil {
		err = buf.Flush()
	}
	return err
}
''']))),
b('writestr-ignored',(M,'	err = m.WriteStr(buf, delimiter)\n	if err == nil {\n		err = buf.Flush()\n	}','	m.WriteStr(buf, delimiter)\n	err = buf.Flush()')),
b('leave-open-on-error',(M,CF,HEAD.join(['func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {\n','''	buf := bufio.NewWriter(f)
	if err := m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	if err := buf.Flush(); err != nil {
		return err
	}
	return f.Close()
}
''']))),
b('close-shadow',(M,'	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n','	if err := f.Close(); err != nil {\n		return nil\n	}\n')),
b('fixed-delim',(M,'m.WriteStr(buf, delimiter)','m.WriteStr(buf, ",")')),
b('delim-error',(M,'				_, err := fmt.Fprint(writer, delimiter)\n				if err != nil {\n					return err\n				}\n','				fmt.Fprint(writer, delimiter)\n')),
b('value-error',(M,'"%.19g", m.Values[i*m.Cols+j])\n			if err != nil {\n				return err\n			}','"%.19g", m.Values[i*m.Cols+j])\n			if err != nil {\n				break\n			}')),
b('eol-error',(M,'		_, err := fmt.Fprint(writer, "\\n")\n		if err != nil {\n			return err\n		}\n	}','		fmt.Fprint(writer, "\\n")\n	}')),
b('empty-error',(M,'		_, err := fmt.Fprint(writer, "\\n")\n		return err\n','		fmt.Fprint(writer, "\\n")\n		return nil\n')),
b('transposed',(M,'i*m.Cols+j]','j*m.Rows+i]')),
b('swaploops',(M,'for i := 0; i < m.Rows; i++ {\n		for j := 0; j < m.Cols; j++ {','for j := 0; j < m.Cols; j++ {\n		for i := 0; i < m.Rows; i++ {')),
b('rowsminus',(M,'i < m.Rows; i++','i < m.Rows-1; i++')),
b('colsminus',(M,'j < m.Cols; j++','j < m.Cols-1; j++')),
b('delimlast',(M,'if j != m.Cols-1 {','if j != m.Cols {')),
b('delimrows',(M,'if j != m.Cols-1 {','if j != m.Rows-1 {')),
b('g6',(M,'"%.19g"','"%g6"')),
b('p6',(M,'"%.19g"','"%.6g"')),
b('p16',(M,'"%.19g"','"%.16g"')),
b('f6',(M,'"%.19g"','"%f"')),
b('crlf',(M,'		_, err := fmt.Fprint(writer, "\\n")\n		if','		_, err := fmt.Fprint(writer, " ")\n		if')),
b('float32',(M,'"%.19g", m.Values[i*m.Cols+j]','"%.19g", float32(m.Values[i*m.Cols+j])')),
b('skipzero',(M,'			_, err := fmt.Fprintf(writer','			if m.Values[i*m.Cols+j] == 0 {\n				continue\n			}\n			_, err := fmt.Fprintf(writer')),
b('shape',(M,'m.Cols*m.Rows != len(m.Values)','m.Cols*m.Rows > len(m.Values)')),
b('strconv32',(M,'fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])','io.WriteString(writer, strconv.FormatFloat(m.Values[i*m.Cols+j], \'g\', -1, 32))')),
ok('strconv',(M,'fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])','io.WriteString(writer, strconv.FormatFloat(m.Values[i*m.Cols+j], \'g\', 19, 64))')),
ok('writestring',(M,'fmt.Fprint(writer, delimiter)','io.WriteString(writer, delimiter)')),
ok('writebyte',(M,'		_, err := fmt.Fprint(writer, "\\n")\n		if','		_, err := writer.Write([]byte("\\n"))\n		if')),
ok('fprintln',(M,'		_, err := fmt.Fprint(writer, "\\n")\n		if','		_, err := fmt.Fprintln(writer)\n		if')),
ok('delimfirst',(M,LOOP,'''	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			if j > 0 {
				if _, err := fmt.Fprint(writer, delimiter); err != nil {
					return err
				}
			}
			if _, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j]); err != nil {
				return err
			}
		}
		if _, err := fmt.Fprint(writer, "\\n"); err != nil {
			return err
		}
	}
''')),
ok('rowslice',(M,LOOP,'''	for i := 0; i < m.Rows; i++ {
		row := m.Values[i*m.Cols : (i+1)*m.Cols]
		for j, v := range row {
			if _, err := fmt.Fprintf(writer, "%.19g", v); err != nil {
				return err
			}
			if j < len(row)-1 {
				if _, err := fmt.Fprint(writer, delimiter); err != nil {
					return err
				}
			}
		}
		if _, err := fmt.Fprint(writer, "\\n"); err != nil {
			return err
		}
	}
''')),
ok('rowhelper',(M,LOOP,'''	for i := 0; i < m.Rows; i++ {
		if err := m.writeRow(writer, i, delimiter); err != nil {
			return err
		}
	}
'''),(M,'// ToCsvFile writes','''func (m *DenseMat) writeRow(writer io.Writer, i int, delimiter string) error {
	for j := 0; j < m.Cols; j++ {
		if _, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j]); err != nil {
			return err
		}
		if j == m.Cols-1 {
			break
		}
		if _, err := fmt.Fprint(writer, delimiter); err != nil {
			return err
		}
	}
	_, err := fmt.Fprint(writer, "\\n")
	return err
}

// ToCsvFile writes''')),
ok('put',(M,LOOP,'''	var err error
	put := func(format string, a ...interface{}) {
		if err == nil {
			_, err = fmt.Fprintf(writer, format, a...)
		}
	}
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			put("%.19g", m.Values[i*m.Cols+j])
			if j != m.Cols-1 {
				put("%s", delimiter)
			}
		}
		put("\\n")
	}
	if err != nil {
		return err
	}
''')),
ok('sep',(M,LOOP,'''	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			sep := delimiter
			if j == m.Cols-1 {
				sep = "\\n"
			}
			if _, err := fmt.Fprintf(writer, "%.19g%s", m.Values[i*m.Cols+j], sep); err != nil {
				return err
			}
		}
	}
''')),
ok('flat',(M,LOOP,'''	for k, v := range m.Values {
		if _, err := fmt.Fprintf(writer, "%.19g", v); err != nil {
			return err
		}
		sep := delimiter
		if (k+1)%m.Cols == 0 {
			sep = "\\n"
		}
		if _, err := fmt.Fprint(writer, sep); err != nil {
			return err
		}
	}
''')),
ok('p17',(M,'"%.19g"','"%.17g"')),
ok('v',(M,'"%.19g"','"%v"')),
ok('create-defer',(M,CF,HEAD.join(['func (m *DenseMat) ToCsvFile(filename string, delimiter string) (err error) {\n','''	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()
	buf := bufio.NewWriter(f)
	if err := m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	return buf.Flush()
}
''']))),
ok('create-steps',(M,CF,HEAD.join(['func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {\n','''	buf := bufio.NewWriter(f)
	if err := m.WriteStr(buf, delimiter); err != nil {
		f.Close()
		return err
	}
	if err := buf.Flush(); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}
''']))),
ok('create-double',(M,CF,HEAD.join(['func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {\n','''	defer f.Close()
	buf := bufio.NewWriter(f)
	if err := m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	if err := buf.Flush(); err != nil {
		return err
	}
	return f.Close()
}
''']))),
ok('create-nobuf',(M,'	buf := bufio.NewWriter(f)\n	err = m.WriteStr(buf, delimiter)\n	if err == nil {\n		err = buf.Flush()\n	}\n','	err = m.WriteStr(f, delimiter)\n'),),
ok('create-helper',(M,'	buf := bufio.NewWriter(f)\n	err = m.WriteStr(buf, delimiter)\n	if err == nil {\n		err = buf.Flush()\n	}\n','	err = m.writeTo(f, delimiter)\n'),(M,'// ToCsvFile writes','''func (m *DenseMat) writeTo(f *os.File, delimiter string) error {
	buf := bufio.NewWriter(f)
	if err := m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	return buf.Flush()
}

// ToCsvFile writes''')),
ok('create-iowriter',(M,'	buf := bufio.NewWriter(f)\n	err = m.WriteStr(buf, delimiter)\n	if err == nil {\n		err = buf.Flush()\n	}\n','	err = m.writeTo(f, delimiter)\n'),(M,'// ToCsvFile writes','''func (m *DenseMat) writeTo(w io.Writer, delimiter string) error {
	buf := bufio.NewWriter(w)
	if err := m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	return buf.Flush()
}

// ToCsvFile writes''')),
ok('defer-closure',(L,'	defer reader.Close()\n','	defer func() { _ = reader.Close() }()\n')),
ok('explicit',(L,'	defer reader.Close()\n	bufReader := bufio.NewReader(reader)\n	return LGEnsembleFromReader(bufReader, loadTransformation)','	bufReader := bufio.NewReader(reader)\n	model, err := LGEnsembleFromReader(bufReader, loadTransformation)\n	reader.Close()\n	return model, err')),
ok('fromfile',(L,LG,'''func LGEnsembleFromFile(filename string, loadTransformation bool) (*Ensemble, error) {
	return fromFile(filename, loadTransformation, LGEnsembleFromReader)
}

func fromFile(filename string, loadTransformation bool, load func(*bufio.Reader, bool) (*Ensemble, error)) (*Ensemble, error) {
	reader, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer reader.Close()
	return load(bufio.NewReader(reader), loadTransformation)
}

''')),
ok('opener',(L,LG,'''func LGEnsembleFromFile(filename string, loadTransformation bool) (*Ensemble, error) {
	file, reader, err := openModel(filename)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return LGEnsembleFromReader(reader, loadTransformation)
}

func openModel(filename string) (*os.File, *bufio.Reader, error) {
	f, err := os.Open(filename)
	if err != nil {
		return nil, nil, err
	}
	return f, bufio.NewReader(f), nil
}

''')),
ok('matfromfile',(M,DL,'	return fromOpened(reader, limit, skipFirstColumn)\n}\n\nfunc fromOpened(reader *os.File, limit int, skipFirstColumn bool) (*DenseMat, error) {\n	defer reader.Close()\n	mat, err := DenseMatFromLibsvm(')),
]
cases+=[
ok('bufwrap',(M,LOOP+'	return nil\n','''	w := bufio.NewWriter(writer)
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			fmt.Fprintf(w, "%.19g", m.Values[i*m.Cols+j])
			if j != m.Cols-1 {
				w.WriteString(delimiter)
			}
		}
		w.WriteString("\\n")
	}
	return w.Flush()
''')),
b('bufwrap-noflush',(M,LOOP+'	return nil\n','''	w := bufio.NewWriter(writer)
	defer w.Flush()
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			fmt.Fprintf(w, "%.19g", m.Values[i*m.Cols+j])
			if j != m.Cols-1 {
				w.WriteString(delimiter)
			}
		}
		w.WriteString("\\n")
	}
	return nil
''')),
b('put-last',(M,LOOP,'''	var err error
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			_, err = fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])
			if j != m.Cols-1 {
				_, err = fmt.Fprint(writer, delimiter)
			}
		}
		_, err = fmt.Fprint(writer, "\\n")
	}
	if err != nil {
		return err
	}
''')),
ok('both',(M,'	err = m.WriteStr(buf, delimiter)\n','	err = m.write(buf, delimiter)\n'),(M,WS,WS.replace('WriteStr','write')+'''func (m *DenseMat) WriteStr(writer io.Writer, delimiter string) error {
	return m.write(writer, delimiter)
}

''')),
]

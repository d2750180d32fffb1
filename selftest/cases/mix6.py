# rewrites of the readers another author would make: tables of destinations,
# readers with a position, readers that remember the first failure
D = 'internal/pickle/decoder.go'; MA = 'internal/pickle/machine.go'; N = 'internal/pickle/numpy.go'
T = 'internal/pickle/types.go'; S = 'internal/pickle/sklearn.go'; X = 'internal/xgbin/xgbin_io.go'
M = 'mat/mat_io.go'; MM = 'mat/mat.go'; U = 'util/util.go'; IO = 'lgensemble_io.go'; XI = 'xgensemble_io.go'; SK = 'skensemble_io.go'
R = '/repo/'
d = open(R+D).read(); n = open(R+N).read(); t = open(R+T).read(); s = open(R+S).read(); x = open(R+X).read(); m = open(R+M).read(); u = open(R+U).read(); io = open(R+IO).read()
def seg(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
def ok(name, *edits): return dict(name='ok-mix6-' + name, edits=list(edits), ok=True)
frombytes = seg(s, '	offset := 0\n', '}\n\n// SklearnTree represents')
treeBuild = seg(s, 'func (t *SklearnTree) Build(', 'type SklearnDecisionTreeRegressor struct')
gbBuild = seg(s, 'func (t *SklearnGradientBoosting) Build(', 'type SKlearnInitEstimator struct')
rstr = seg(x, '	var size uint64\n', '}\n\n// ReadFloat32Slice')
tm = seg(x, '	treeModel := &TreeModel{}', '}\n\n// ReadGBLinear')
gbt = seg(x, '	gBTreeModel := &GBTreeModel{}', '}\n\n// ReadTreeModel')
hdr = seg(x, '	modelHeader := &ModelHeader{}', '}\n\n// ReadGBTree')
csvLoop = seg(m, '		tokens := strings.Split(line, delimiter)', '		err = f(records)\n		if err != nil {\n			return err\n		}\n		rows++\n		if limit > 0 && rows == limit {\n			break\n		}\n	}\n	return nil\n}\n\n// WriteStr')
svmLoop = seg(m, '		tokens := strings.Split(line, " ")', '		err = f(records)')
wr = seg(m, '	for i := 0; i < m.Rows; i++ {', '}\n\n// ToCsvFile')
tocsv = seg(m, '	buf := bufio.NewWriter(f)', '\x00') if False else m[m.index('	buf := bufio.NewWriter(f)'):]
rec2dense = seg(m, '	for i, r := range records {', '}\n\nfunc recordsToCSRMat')
lgparams = seg(io, '	nClasses, err := params.ToInt("num_class")', '	if params.Contains("average_output")')
lgarrays = seg(io, '	leftChilds, err := params.ToInt32Slice("left_child")', '	if len(leftChilds) != numNodes')
iter_ = seg(n, '	if len(*b)%length', '}\n\ntype NumpyDType')
decU = seg(d, '	// \\u000a == \\n\n', '}\n\n// Codes below')
pclass = seg(t, '	build, hasBuild := obj.(Build)\n	if r', '\x00') if False else t[t.index('	build, hasBuild := obj.(Build)\n	if r'):]

cases = [
ok('frombytes-table', (S, frombytes, '''	node := SklearnNode{}
	size := 8
	for i, field := range []*int{&node.LeftChild, &node.RightChild, &node.Feature} {
		*field = int(binary.LittleEndian.Uint64(bytes[i*size : (i+1)*size]))
	}
	for i, field := range []*float64{&node.Threshold, &node.Impurity} {
		offset := (3 + i) * size
		*field = util.Float64FromBytes(bytes[offset:offset+size], true)
	}
	node.NNodeSamples = int(binary.LittleEndian.Uint64(bytes[40:48]))
	node.WeightedNNodeSamples = util.Float64FromBytes(bytes[48:56], true)
	return node
''')),
ok('frombytes-words', (S, frombytes, '''	var words [7]uint64
	for i := range words {
		words[i] = binary.LittleEndian.Uint64(bytes[8*i:])
	}
	return SklearnNode{
		LeftChild:            int(words[0]),
		RightChild:           int(words[1]),
		Feature:              int(words[2]),
		Threshold:            math.Float64frombits(words[3]),
		Impurity:             math.Float64frombits(words[4]),
		NNodeSamples:         int(words[5]),
		WeightedNNodeSamples: math.Float64frombits(words[6]),
	}
'''), (S, '	"fmt"\n', '	"fmt"\n	"math"\n')),
ok('frombytes-cursor', (S, frombytes, '''	next := func() []byte {
		field := bytes[:8]
		bytes = bytes[8:]
		return field
	}
	nextInt := func() int { return int(binary.LittleEndian.Uint64(next())) }
	nextFloat := func() float64 { return util.Float64FromBytes(next(), true) }
	node := SklearnNode{}
	node.LeftChild = nextInt()
	node.RightChild = nextInt()
	node.Feature = nextInt()
	node.Threshold = nextFloat()
	node.Impurity = nextFloat()
	node.NNodeSamples = nextInt()
	node.WeightedNNodeSamples = nextFloat()
	return node
''')),
ok('gb-ints-table', (S, gbBuild, gbBuild.replace('''	t.MaxFeatures, err = dict.toInt("max_features_")
	if err != nil {
		return
	}
	t.NFeatures, err = dict.toInt("n_features_")
	if err != nil {
		return
	}
	t.NEstimators, err = dict.toInt("n_estimators")
	if err != nil {
		return
	}
''', '''	for _, field := range []struct {
		name string
		dst  *int
	}{
		{"max_features_", &t.MaxFeatures},
		{"n_features_", &t.NFeatures},
		{"n_estimators", &t.NEstimators},
	} {
		*field.dst, err = dict.toInt(field.name)
		if err != nil {
			return err
		}
	}
'''))),
ok('gb-parse-field', (S, gbBuild, gbBuild.replace('''	obj, err = dict.value("init_")
	if err != nil {
		return
	}
	err = ParseClass(&t.InitEstimator, obj)
	if err != nil {
		return
	}
''', '''	if err = dict.parse("init_", &t.InitEstimator); err != nil {
		return
	}
''').replace('''	classesObj, err := dict.value("classes_")
	if err != nil {
		return err
	}
	err = ParseClass(&arr, classesObj)
	if err != nil {
		return err
	}
''', '''	if err = dict.parse("classes_", &arr); err != nil {
		return err
	}
''').replace('''	obj, err = dict.value("estimators_")
	if err != nil {
		return
	}
	err = ParseClass(&arr, obj)
	if err != nil {
		return
	}
''', '''	if err = dict.parse("estimators_", &arr); err != nil {
		return err
	}
''')), (S, treeBuild, treeBuild.replace('''	nodesObj, err := dict.value("nodes")
	if err != nil {
		return
	}
	arr := NumpyArrayRaw{}
	err = ParseClass(&arr, nodesObj)
	if err != nil {
		return
	}
''', '''	arr := NumpyArrayRaw{}
	err = dict.parse("nodes", &arr)
	if err != nil {
		return
	}
''').replace('''	valuesObj, err := dict.value("values")
	if err != nil {
		return
	}
	arr = NumpyArrayRaw{}
	err = ParseClass(&arr, valuesObj)
	if err != nil {
		return
	}
''', '''	arr = NumpyArrayRaw{}
	err = dict.parse("values", &arr)
	if err != nil {
		return
	}
''')), (T, '// ParseClass calls PythonClass', '''// parse restores the python class kept under the key
func (d *Dict) parse(key string, entity PythonClass) error {
	obj, err := d.value(key)
	if err != nil {
		return err
	}
	return ParseClass(entity, obj)
}

// ParseClass calls PythonClass''')),
ok('tree-two-arrays', (S, treeBuild, treeBuild.replace('	arr = NumpyArrayRaw{}\n	err = ParseClass(&arr, valuesObj)', '	valuesArr := NumpyArrayRaw{}\n	err = ParseClass(&valuesArr, valuesObj)').replace('''	if arr.Type.Type != "f8" {
		return fmt.Errorf("expected ndtype \\"f8\\" (got: %#v)", arr.Type)
	}
	err = arr.Data.Iterate(8, func(b []byte) error {
		t.Values = append(t.Values, util.Float64FromBytes(b, arr.Type.LittleEndinan))
		return nil
	})
	if err != nil {
		return
	}
	return
''', '''	if valuesArr.Type.Type != "f8" {
		return fmt.Errorf("expected ndtype \\"f8\\" (got: %#v)", valuesArr.Type)
	}
	littleEndian := valuesArr.Type.LittleEndinan
	return valuesArr.Data.Iterate(8, func(b []byte) error {
		value := util.Float64FromBytes(b, littleEndian)
		t.Values = append(t.Values, value)
		return nil
	})
'''))),
ok('adj-classes', (S, gbBuild, gbBuild.replace('''	adjNClasses := t.NClasses
	if t.NClasses == 2 {
		adjNClasses = 1
	}
	if len(arr.Shape) != 2 || arr.Shape[0] != t.NEstimators || arr.Shape[1] != adjNClasses {
		return fmt.Errorf("unexpected shape: %#v", arr.Shape)
	}
	if len(arr.DataList) != arr.Shape[0]*arr.Shape[1] {
		return fmt.Errorf("unexpected array list length")
	}
	t.Estimators = make([]SklearnDecisionTreeRegressor, arr.Shape[0]*arr.Shape[1])
	for i := range arr.DataList {
		err = ParseClass(&t.Estimators[i], arr.DataList[i])
		if err != nil {
			return
		}
	}
	return
''', '''	nTrees := 1
	if t.NClasses != 2 {
		nTrees = t.NClasses
	}
	if shape := arr.Shape; len(shape) != 2 || shape[0] != t.NEstimators || shape[1] != nTrees {
		return fmt.Errorf("unexpected shape: %#v", arr.Shape)
	}
	nTrees *= t.NEstimators
	if len(arr.DataList) != nTrees {
		return fmt.Errorf("unexpected array list length")
	}
	t.Estimators = make([]SklearnDecisionTreeRegressor, nTrees)
	for i, treeObj := range arr.DataList {
		if err := ParseClass(&t.Estimators[i], treeObj); err != nil {
			return err
		}
	}
	return nil
'''))),
ok('iterate-range', (N, iter_, '''	if rest := len(*b) % length; rest != 0 {
		return fmt.Errorf("unexpected raw bytes length (got %d)", len(*b))
	}
	data := []byte(*b)
	for start := 0; start < len(data); start += length {
		if err := parse(data[start : start+length]); err != nil {
			return err
		}
	}
	return nil
''')),
ok('unicode-pairs', (D, decU, '''	ret := rawString
	for _, escape := range [...]struct{ from, to string }{
		{`\\u000a`, "\\n"},
		// newer versions of python escape these bytes too
		{`\\u0000`, "\\x00"},
		{`\\u000d`, "\\r"},
		{`\\u001a`, "\\x1a"},
		{`\\u005c`, `\\`},
	} {
		ret = bytes.Replace(ret, []byte(escape.from), []byte(escape.to), -1)
	}
	return Unicode(ret)
''')),
ok('parse-find', (T, pclass, '''	build, err := findBuild(obj)
	if build == nil {
		reduce, err := toReduce(obj)
		if err != nil {
			return err
		}
		return entity.Reduce(reduce)
	}
	reduce, err := toReduce(build.Object)
	if err != nil {
		return err
	}
	if err := entity.Reduce(reduce); err != nil {
		return err
	}
	return entity.Build(*build)
}

// findBuild returns the state of the object, nil if it has none
func findBuild(obj interface{}) (*Build, error) {
	switch x := obj.(type) {
	case Build:
		return &x, nil
	case *Reduce:
		return x.built, nil
	}
	return nil, nil
}
''')),
ok('x-sticky', (X, tm, '''	treeModel := &TreeModel{}
	if err := ReadStruct(reader, &treeModel.Param); err != nil {
		return nil, err
	}
	numNodes := int(treeModel.Param.NumNodes)
	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
	var err error
	for i := 0; i < numNodes && err == nil; i++ {
		var node Node
		err = ReadStruct(reader, &node)
		treeModel.Nodes = append(treeModel.Nodes, node)
	}
	for i := 0; i < numNodes && err == nil; i++ {
		var stat RTreeNodeStat
		err = ReadStruct(reader, &stat)
		treeModel.Stats = append(treeModel.Stats, stat)
	}
	if err == nil && treeModel.Param.SizeLeafVector > 0 {
		// leaf vector, that is used to store additional information
		// std::vector<bst_float> leaf_vector_;
		_, err = ReadFloat32Slice(reader)
	}
	if err != nil {
		return nil, err
	}
	return treeModel, nil
''')),
ok('x-header-table', (X, hdr, '''	modelHeader := &ModelHeader{}
	if err := ReadStruct(reader, &modelHeader.Param); err != nil {
		return nil, err
	}
	for _, name := range []*string{&modelHeader.NameObj, &modelHeader.NameGbm} {
		value, err := ReadString(reader)
		if err != nil {
			return nil, err
		}
		*name = value
	}
	return modelHeader, nil
''')),
ok('x-tree-info', (X, gbt, gbt.replace('''	if gBTreeModel.Param.NumTrees > 0 {
		// some information indicator of the tree, reserved
		// std::vector<int> tree_info;
		gBTreeModel.TreeInfo = make([]int32, gBTreeModel.Param.NumTrees)
		err = binary.Read(reader, binary.LittleEndian, &gBTreeModel.TreeInfo)
		if err != nil {
			return nil, err
		}
	}
''', '''	if gBTreeModel.Param.NumTrees <= 0 {
		return gBTreeModel, nil
	}
	// some information indicator of the tree, reserved
	// std::vector<int> tree_info;
	treeInfo := make([]int32, gBTreeModel.Param.NumTrees)
	if err := binary.Read(reader, binary.LittleEndian, treeInfo); err != nil {
		return nil, err
	}
	gBTreeModel.TreeInfo = treeInfo
'''))),
ok('x-trees-prealloc', (X, gbt, gbt.replace('''	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
		tree, err := ReadTreeModel(reader)
		if err != nil {
			return nil, err
		}
		gBTreeModel.Trees = append(gBTreeModel.Trees, tree)
	}
''', '''	numTrees := int(gBTreeModel.Param.NumTrees)
	for len(gBTreeModel.Trees) < numTrees {
		tree, err := ReadTreeModel(reader)
		if err != nil {
			return nil, err
		}
		gBTreeModel.Trees = append(gBTreeModel.Trees, tree)
	}
'''))),
ok('x-string-full', (X, rstr, '''	var size uint64
	if err := ReadStruct(reader, &size); err != nil {
		return "", err
	}
	text := make([]byte, size)
	if size > 0 {
		if err := ReadStruct(reader, text); err != nil {
			return "", err
		}
	}
	return string(text), nil
''')),
ok('csv-value-fn', (M, csvLoop, '''		tokens := strings.Split(line, delimiter)

		records = records[:0]
		for col := startIndex; col < len(tokens); col++ {
			value, err := parseCell(tokens[col], defValue)
			if err != nil {
				return err
			}
			records = append(records, libsvmRecord{column: col - startIndex, value: value})
		}
'''), (M, 'func readFromCsv(', '''// parseCell returns the number of a cell, defValue for an empty one
func parseCell(cell string, defValue float64) (float64, error) {
	if cell == "" {
		return defValue, nil
	}
	value, err := strconv.ParseFloat(cell, 64)
	if err != nil {
		return 0, fmt.Errorf("can't convert to float %s: %s", cell, err.Error())
	}
	return value, nil
}

func readFromCsv(''')),
ok('csv-skip-slice', (M, csvLoop, '''		tokens := strings.Split(line, delimiter)[startIndex:]

		records = records[:0]
		for col, token := range tokens {
			value := defValue
			if token != "" {
				value, err = strconv.ParseFloat(token, 64)
				if err != nil {
					return fmt.Errorf("can't convert to float %s: %s", token, err.Error())
				}
			}
			records = append(records, libsvmRecord{col, value})
		}
''')),
ok('svm-pair-fn', (M, svmLoop, '''		tokens := strings.Split(line, " ")
		if len(tokens) < 2 {
			return fmt.Errorf("too few columns")
		}

		records = records[:0]
		for _, token := range tokens[startIndex:] {
			if token == "" {
				continue
			}
			record, err := parseRecord(token)
			if err != nil {
				return err
			}
			records = append(records, record)
		}

'''), (M, 'func readFromLibsvm(', '''func parseRecord(token string) (libsvmRecord, error) {
	record := libsvmRecord{}
	pair := strings.Split(token, ":")
	if len(pair) != 2 {
		return record, fmt.Errorf("can't parse %s", token)
	}
	column, err := strconv.ParseUint(pair[0], 10, 32)
	if err != nil {
		return record, fmt.Errorf("can't convert to float %s: %s", pair[0], err.Error())
	}
	record.column = int(column)
	record.value, err = strconv.ParseFloat(pair[1], 64)
	if err != nil {
		return record, fmt.Errorf("can't convert to float %s: %s", pair[1], err.Error())
	}
	return record, nil
}

func readFromLibsvm(''')),
ok('dense-check-first', (M, rec2dense, '''	if mat.Rows > 0 && len(records) != mat.Cols {
		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
	}
	for i := range records {
		if records[i].column != i {
			return fmt.Errorf("wrong column number for dense matrix")
		}
		mat.Values = append(mat.Values, records[i].value)
	}
	mat.Cols = len(records)
	mat.Rows += 1
	return nil
''')),
ok('write-string', (M, wr, '''	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			if j > 0 {
				if _, err := io.WriteString(writer, delimiter); err != nil {
					return err
				}
			}
			if _, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j]); err != nil {
				return err
			}
		}
		if _, err := io.WriteString(writer, "\\n"); err != nil {
			return err
		}
	}
	return nil
''')),
ok('write-row-fn', (M, wr, '''	for i := 0; i < m.Rows; i++ {
		if err := writeRow(writer, m.Values[i*m.Cols:(i+1)*m.Cols], delimiter); err != nil {
			return err
		}
	}
	return nil
'''), (M, '// ToCsvFile writes', '''func writeRow(writer io.Writer, row []float64, delimiter string) error {
	for j, value := range row {
		if j != 0 {
			if _, err := fmt.Fprint(writer, delimiter); err != nil {
				return err
			}
		}
		if _, err := fmt.Fprintf(writer, "%.19g", value); err != nil {
			return err
		}
	}
	_, err := fmt.Fprint(writer, "\\n")
	return err
}

// ToCsvFile writes''')),
ok('csv-close-first', (M, tocsv, '''	if err := m.writeBuffered(f, delimiter); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func (m *DenseMat) writeBuffered(w io.Writer, delimiter string) error {
	buf := bufio.NewWriter(w)
	if err := m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	return buf.Flush()
}
''')),
ok('csv-named', (M, 'func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {', 'func (m *DenseMat) ToCsvFile(filename string, delimiter string) (err error) {'),
  (M, tocsv, '''	defer func() {
		if closeErr := f.Close(); closeErr != nil && err == nil {
			err = closeErr
		}
	}()
	buf := bufio.NewWriter(f)
	if err = m.WriteStr(buf, delimiter); err != nil {
		return err
	}
	return buf.Flush()
}
''')),
ok('lg-ints-table', (IO, lgparams, '''	var nClasses, nTreePerIteration, maxFeatureIdx int
	for _, p := range []struct {
		key string
		dst *int
	}{
		{"num_class", &nClasses},
		{"num_tree_per_iteration", &nTreePerIteration},
		{"max_feature_idx", &maxFeatureIdx},
	} {
		*p.dst, err = params.ToInt(p.key)
		if err != nil {
			return nil, err
		}
	}
	if nClasses != nTreePerIteration {
		return nil, fmt.Errorf("meet case when num_class (%d) != num_tree_per_iteration (%d)", nClasses, nTreePerIteration)
	} else if nClasses < 1 {
		return nil, fmt.Errorf("num_class (%d) should be > 0", nClasses)
	}
	e.nRawOutputGroups = nClasses
	e.MaxFeatureIdx = maxFeatureIdx

''')),
ok('lg-arrays-list', (IO, lgarrays, '''	var leftChilds, rightChilds []int32
	var decisionTypes, splitFeatures []uint32
	for _, p := range []struct {
		key string
		dst *[]int32
	}{{"left_child", &leftChilds}, {"right_child", &rightChilds}} {
		if *p.dst, err = params.ToInt32Slice(p.key); err != nil {
			return t, err
		}
	}
	for _, p := range []struct {
		key string
		dst *[]uint32
	}{{"decision_type", &decisionTypes}, {"split_feature", &splitFeatures}} {
		if *p.dst, err = params.ToUint32Slice(p.key); err != nil {
			return t, err
		}
	}
	thresholds, err := params.ToFloat64Slice("threshold")
	if err != nil {
		return t, err
	}

''')),
ok('u-split-list', (U, '''	valueStr, isFound := (*p)[key]
	if !isFound {
		return nil, fmt.Errorf("no %s field", key)
	}
	valuesStr := strings.Split(valueStr, " ")
	values := make([]float64, 0, len(valuesStr))
''', '''	valuesStr, err := p.ToStrSlice(key)
	if err != nil {
		return nil, err
	}
	values := make([]float64, 0, len(valuesStr))
'''), (U, '''	valueStr, isFound := (*p)[key]
	if !isFound {
		return nil, fmt.Errorf("no %s field", key)
	}
	valuesStr := strings.Split(valueStr, " ")
	values := make([]uint32, 0, len(valuesStr))
''', '''	valuesStr, err := p.ToStrSlice(key)
	if err != nil {
		return nil, err
	}
	values := make([]uint32, 0, len(valuesStr))
'''), (U, '''	valueStr, isFound := (*p)[key]
	if !isFound {
		return 0, fmt.Errorf("no %s field", key)
	}

	value, err :=''', '''	valueStr, err := p.ToString(key)
	if err != nil {
		return 0, err
	}

	value, err :=''')),
ok('u-bits', (U, seg(u, '	numberOfSetBitsInBitsetElement :=', '}\n\n// ConstructBitset'), '''	count := 0
	for _, e := range bitset {
		count += bits.OnesCount32(e)
	}
	return uint32(count)
'''), (U, '	"math"\n', '	"math"\n	"math/bits"\n')),
ok('u-mismatch', (U, '''	count := 0
	for i := range a {
		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			count++
		}
	}
	return count, nil
''', '''	count := 0
	for i, x := range a {
		if differ(x, b[i], threshold) {
			count++
		}
	}
	return count, nil
'''), (U, '''	for i := range a {
		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			return''', '''	for i := range a {
		if differ(a[i], b[i], threshold) {
			return'''), (U, 'func AlmostEqualFloat64Slices(', '''// differ: one value alone is NaN or the values are too far from each other
func differ(a, b, threshold float64) bool {
	if math.IsNaN(a) != math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) > threshold
}

func AlmostEqualFloat64Slices(''')),
ok('sk-name-switch', (SK, '	e.MaxFeatureIdx = gbdt.NFeatures - 1\n\n	nTrees := gbdt.NEstimators\n	if nTrees == 0 {\n		return nil, fmt.Errorf("no trees in file")\n	}\n', '	if gbdt.NEstimators == 0 {\n		return nil, fmt.Errorf("no trees in file")\n	}\n	e.MaxFeatureIdx = gbdt.NFeatures - 1\n')),
]

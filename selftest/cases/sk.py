import re
S='internal/pickle/sklearn.go'; N='internal/pickle/numpy.go'; T='internal/pickle/types.go'; K='skensemble_io.go'
def b(n,*e,ids=('C20',)): return dict(name='sk-'+n,edits=list(e),bug=list(ids))
def ok(n,*e): return dict(name='ok-sk-'+n,edits=list(e),ok=True)
src={f:open('/repo/'+f).read() for f in (S,N,T,K)}
def fn(f,head):
    s=src[f]; i=s.index('func '+head); j=s.index('\n}\n',i)+3
    return s[i:j]
def rep(s,*e):
    for o,n in e:
        assert o in s,o
        s=s.replace(o,n,1)
    return s
def m(f,head,*e):
    k=fn(f,head); return (f,k,rep(k,*e))
NODE='SklearnNodeFromBytes('; TR='(t *SklearnTree) Reduce'; TB='(t *SklearnTree) Build'
DR='(t *SklearnDecisionTreeRegressor) Reduce'; DB='(t *SklearnDecisionTreeRegressor) Build'
GR='(t *SklearnGradientBoosting) Reduce'; GB='(t *SklearnGradientBoosting) Build'
IR='(e *SKlearnInitEstimator) Reduce'; IB='(e *SKlearnInitEstimator) Build'
AR='(a *NumpyArrayRaw) Reduce'; AB='(a *NumpyArrayRaw) Build'; RR='(b *NumpyRawBytes) Reduce'; IT='(b *NumpyRawBytes) Iterate'
TYR='(d *NumpyDType) Reduce'; TYB='(d *NumpyDType) Build'; SR='(s *NumpyScalarRaw) Reduce'; PC='ParseClass('
node=fn(S,NODE)
cases=[
# node records
b('node-swap',(S,node,node.replace('node.Threshold =','node.X =').replace('node.Impurity =','node.Threshold =').replace('node.X =','node.Impurity ='))),
b('node-children',(S,node,node.replace('node.LeftChild =','node.X =').replace('node.RightChild =','node.LeftChild =').replace('node.X =','node.RightChild ='))),
b('node-32',m(S,NODE,('int(binary.LittleEndian.Uint64(bytes[offset : offset+size]))','int(int32(binary.LittleEndian.Uint64(bytes[offset : offset+size])))'))),
b('node-u32',m(S,NODE,('int(binary.LittleEndian.Uint64(bytes[offset : offset+size]))','int(binary.LittleEndian.Uint32(bytes[offset : offset+size]))'))),
b('node-big',m(S,NODE,('node.Threshold = util.Float64FromBytes(bytes[offset:offset+size], true)','node.Threshold = util.Float64FromBytes(bytes[offset:offset+size], false)'))),
b('node-late',m(S,NODE,('	node.NNodeSamples = int','	offset += size\n	node.NNodeSamples = int'),('	offset += size\n	node.WeightedNNodeSamples','	offset -= size\n	node.WeightedNNodeSamples'))),
b('node-weighted',m(S,NODE,('	offset += size\n	node.WeightedNNodeSamples','	node.WeightedNNodeSamples'))),
# tree
b('tree-outputs',m(S,TR,('reduce.Args[2].(int)','reduce.Args[0].(int)'))),
b('tree-classes-big',m(S,TR,('binary.LittleEndian','binary.BigEndian'))),
b('tree-classes-order',m(S,TR,(' || arr.Type.LittleEndinan != true',''))),
b('tree-classes-type',m(S,TR,('arr.Type.Type != "i8"','arr.Type.Type != "i4"'))),
b('tree-classes-4',m(S,TR,('Iterate(8','Iterate(4'))),
b('tree-name',m(S,TR,('"Tree"','""'))),
b('tree-module',m(S,TR,('"sklearn.tree._tree"','"sklearn.tree"'))),
b('tree-nargs',m(S,TR,('len(reduce.Args) != 3','len(reduce.Args) < 3'))),
b('tree-shape',m(S,TR,('len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs','len(arr.Shape) != 1'))),
b('tree-count',m(S,TB,('"node_count"','"max_depth"'))),
b('tree-nodes-key',m(S,TB,('dict.value("nodes")','dict.value("values")'))),
b('tree-nodes-48',m(S,TB,('Iterate(56','Iterate(48'))),
b('tree-nodes-twice',m(S,TB,('		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))\n','		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))\n		if len(t.Nodes) == 1000 {\n			return nil\n		}\n		if t.Nodes[len(t.Nodes)-1].Feature == -3 {\n			t.Nodes = append(t.Nodes, t.Nodes[0])\n		}\n'))),
b('tree-nodes-skip',m(S,TB,('		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))\n','		if n := SklearnNodeFromBytes(b); n.NNodeSamples > 0 {\n			t.Nodes = append(t.Nodes, n)\n		}\n'))),
b('tree-nodes-limit',m(S,TB,('		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))\n','		if len(t.Nodes) < t.NNodes {\n			t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))\n		}\n'))),
b('tree-values-little',m(S,TB,('util.Float64FromBytes(b, arr.Type.LittleEndinan)','util.Float64FromBytes(b, true)'))),
b('tree-values-inverse',m(S,TB,('util.Float64FromBytes(b, arr.Type.LittleEndinan)','util.Float64FromBytes(b, !arr.Type.LittleEndinan)'))),
b('tree-values-type',m(S,TB,('	if arr.Type.Type != "f8" {\n		return fmt.Errorf("expected ndtype \\"f8\\" (got: %#v)", arr.Type)\n	}\n',''))),
b('tree-values-key',m(S,TB,('dict.value("values")','dict.value("value")'))),
b('tree-values-from-nodes',m(S,TB,('	err = ParseClass(&arr, valuesObj)','	_ = valuesObj\n	err = ParseClass(&arr, nodesObj)'))),
b('tree-refuse',m(S,TB,('	valuesObj, err :=','	if t.NNodes < 3 {\n		return fmt.Errorf("too few nodes")\n	}\n	valuesObj, err :='))),
b('tree-noclasses',m(S,TB,('	t.NNodes, err =','	t.Classes = nil\n	t.NNodes, err ='))),
# regressor
b('reg-nclasses-key',m(S,DB,('"n_classes_"','"n_features_"'))),
b('reg-nclasses-type',m(S,DB,('nClassesRaw.Type.Type != "i8" || ',''))),
b('reg-nclasses-order',m(S,DB,(' || !nClassesRaw.Type.LittleEndinan',''))),
b('reg-swap',m(S,DB,('"max_features_"','"n_outputs_X"'),('"n_outputs_"','"max_features_"'),('"n_outputs_X"','"n_outputs_"'))),
b('reg-tree',m(S,DB,('dict.value("tree_")','dict.value("tree")'))),
b('reg-tree-err',m(S,DB,('	err = ParseClass(&t.Tree, treeObj)\n	if err != nil {\n		return\n	}\n	return\n','	ParseClass(&t.Tree, treeObj)\n	return\n'))),
b('reg-class',m(S,DR,('"DecisionTreeRegressor"','"DecisionTreeClassifier"'))),
b('reg-class-arg',m(S,DR,('reduce.Args[0]','reduce.Args[1]'))),
b('reg-callable',m(S,DR,('"_reconstructor"','"__newobj__"'))),
# boosting
b('gb-nfeatures',m(S,GB,('"n_features_"','"n_features"'))),
b('gb-estimators-count',m(S,GB,('t.NEstimators, err = dict.toInt("n_estimators")','t.NEstimators, err = dict.toInt("n_estimators_")'))),
b('gb-rate',m(S,GB,('"learning_rate"','"subsample"'))),
b('gb-init',m(S,GB,('dict.value("init_")','dict.value("init")'))),
b('gb-init-err',m(S,GB,('	err = ParseClass(&t.InitEstimator, obj)\n	if err != nil {\n		return\n	}\n','	ParseClass(&t.InitEstimator, obj)\n'))),
b('gb-classes-shape',m(S,GB,('len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses','len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses'))),
b('gb-classes-big',m(S,GB,('binary.LittleEndian','binary.BigEndian'))),
b('gb-first',m(S,GB,('ParseClass(&t.Estimators[i], arr.DataList[i])','ParseClass(&t.Estimators[i], arr.DataList[0])'))),
b('gb-reverse',m(S,GB,('ParseClass(&t.Estimators[i], arr.DataList[i])','ParseClass(&t.Estimators[i], arr.DataList[len(arr.DataList)-1-i])'))),
b('gb-transposed',m(S,GB,('ParseClass(&t.Estimators[i], arr.DataList[i])','ParseClass(&t.Estimators[(i%arr.Shape[1])*arr.Shape[0]+i/arr.Shape[1]], arr.DataList[i])'))),
b('gb-short',m(S,GB,('for i := range arr.DataList {','for i := 0; i < arr.Shape[0]; i++ {'))),
b('gb-last',m(S,GB,('for i := range arr.DataList {','for i := 0; i < len(arr.DataList)-1; i++ {'))),
b('gb-err',m(S,GB,('		err = ParseClass(&t.Estimators[i], arr.DataList[i])\n		if err != nil {\n			return\n		}\n','		err = ParseClass(&t.Estimators[i], arr.DataList[i])\n'))),
b('gb-shape1',m(S,GB,(' || arr.Shape[1] != adjNClasses',' || arr.Shape[1] < 0*adjNClasses'))),
b('gb-shape0',m(S,GB,('arr.Shape[0] != t.NEstimators || ',''))),
b('gb-binary',m(S,GB,('	if t.NClasses == 2 {\n		adjNClasses = 1\n	}\n',''))),
b('gb-binary3',m(S,GB,('if t.NClasses == 2 {','if t.NClasses <= 3 {'))),
b('gb-len',m(S,GB,('	if len(arr.DataList) != arr.Shape[0]*arr.Shape[1] {\n		return fmt.Errorf("unexpected array list length")\n	}\n',''))),
b('gb-shared',m(S,GB,('	for i := range arr.DataList {\n		err = ParseClass(&t.Estimators[i], arr.DataList[i])\n		if err != nil {\n			return\n		}\n','	var one SklearnDecisionTreeRegressor\n	for i := range arr.DataList {\n		err = ParseClass(&one, arr.DataList[i])\n		if err != nil {\n			return\n		}\n		t.Estimators[i] = one\n'))),
b('gb-class',m(S,GR,('"GradientBoostingClassifier"','""'))),
b('gb-module',m(S,GR,('"sklearn.ensemble.gradient_boosting"','""'))),
b('gb-rate-1',m(S,GB,('	obj, err := dict.value("loss")','	if t.LearningRate > 1 {\n		t.LearningRate = 1\n	}\n	obj, err := dict.value("loss")'))),
b('gb-max',m(S,GB,('	t.NEstimators, err =','	if t.NFeatures < t.MaxFeatures {\n		t.NFeatures = t.MaxFeatures\n	}\n	t.NEstimators, err ='))),
b('gb-loss',m(S,GB,('	_ /* loss */, err = toUnicode(obj, -1)','	_ /* loss */, err = toUnicode(obj, 8)'))),
# init
b('init-name',m(S,IR,('classDesc.Name','classDesc.Module'))),
b('init-key',m(S,IB,('dict.value("prior")','dict.value("priors")'))),
b('init-little',m(S,IB,('util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan)','util.Float64FromBytes(numpyScalar.Data, true)'))),
b('init-priors-little',m(S,IB,('util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan)','util.Float64FromBytes(bytes, true)'))),
b('init-type',m(S,IB,('numpyArray.Type.Type != "f8"','numpyArray.Type.Type == "f4"'))),
b('init-unknown',m(S,IB,('	} else {\n		return fmt.Errorf("unknown init estimator class: %s", e.Name)\n	}','	}'))),
b('init-twice',m(S,IB,('		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))','		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan), 0)'))),
b('init-names-swapped',m(S,IB,('e.Name == "LogOddsEstimator"','e.Name == "X"'),('e.Name == "PriorProbabilityEstimator"','e.Name == "LogOddsEstimator"'),('e.Name == "X"','e.Name == "PriorProbabilityEstimator"'))),
b('init-quantile',m(S,IB,('e.Name == "LogOddsEstimator"','e.Name == "LogOddsEstimator" || e.Name == "ScaledLogOddsEstimator"'))),
# numpy
b('arr-shape-last',m(N,AB,('range shapeTuple {','range shapeTuple[1:] {'))),
b('arr-shape-prod',m(N,AB,('a.Shape = append(a.Shape, dim)','a.Shape = append(a.Shape, len(a.Shape)+dim)'))),
b('arr-shape-skip1',m(N,AB,('		a.Shape = append(a.Shape, dim)','		if dim != 1 {\n			a.Shape = append(a.Shape, dim)\n		}'))),
b('arr-fortran',m(N,AB,('	if isFortran != 0 {\n		return fmt.Errorf("expected isFortran = 0 (got %d)", isFortran)\n	}\n',''))),
b('arr-fortran-1',m(N,AB,('isFortran != 0','isFortran > 1'))),
b('arr-type',m(N,AB,('ParseClass(&a.Type, args[2])','ParseClass(&a.Type, args[1])'))),
b('arr-type-err',m(N,AB,('	err = ParseClass(&a.Type, args[2])\n	if err != nil {\n		return\n	}\n','	ParseClass(&a.Type, args[2])\n'))),
b('arr-nobuild',m(N,AB,('case Build, *Reduce:','case Build:'))),
b('arr-default',m(N,AB,('	default:\n		err = fmt.Errorf("unexpected type %T", args[4])\n',''))),
b('arr-list-part',m(N,AB,('a.DataList = *x','a.DataList = (*x)[:a.Shape[0]]'))),
b('arr-len',m(N,AB,('toTuple(build.Args, 5)','toTuple(build.Args, -1)'))),
b('arr-class',m(N,AR,('"ndarray"','""'))),
b('raw-arg',m(N,RR,('toUnicode(reduce.Args[0], -1)','toUnicode(reduce.Args[1], -1)'))),
b('raw-part',m(N,RR,('*b = []byte(unicode)','*b = []byte(unicode[:len(unicode)/8*8])'))),
b('raw-encode',m(N,RR,('"encode"','"decode"'))),
b('it-last',m(N,IT,('i < size; i++','i < size-1; i++'))),
b('it-rem',m(N,IT,('	if len(*b)%length != 0 {\n		return fmt.Errorf("unexpected raw bytes length (got %d)", len(*b))\n	}\n',''))),
b('it-overlap',m(N,IT,('(*b)[i*length : (i+1)*length]','(*b)[i*(length-1) : i*(length-1)+length]'))),
b('it-err',m(N,IT,('		err = parse((*b)[i*length : (i+1)*length])\n		if err != nil {\n			return\n		}\n','		parse((*b)[i*length : (i+1)*length])\n')),ids=()),
b('dt-little',m(N,TYB,("endian[0] == '<'","endian[0] != '>'"))),
b('dt-big',m(N,TYB,("endian[0] == '<'","endian[0] == '>'"))),
b('dt-pos',m(N,TYB,('tuple[1]','tuple[2]'))),
b('dt-default',m(N,TYR,('	d.LittleEndinan = true\n',''))),
b('dt-type',m(N,TYR,('string(unicode)','string(unicode[:0])+"f8"'))),
b('dt-arg',m(N,TYR,('reduce.Args[0]','reduce.Args[2]'))),
b('sc-swap',m(N,SR,('ParseClass(&s.Type, reduce.Args[0])','ParseClass(&s.Type, reduce.Args[1])'))),
b('sc-err',m(N,SR,('	err = ParseClass(&s.Data, reduce.Args[1])\n	if err != nil {\n		return\n	}\n','	ParseClass(&s.Data, reduce.Args[1])\n'))),
b('sc-callable',m(N,SR,('"scalar"','"_reconstruct"'))),
# ParseClass
b('pc-built',m(T,PC,(' && r.built != nil {',' && r.built != nil && false {'))),
b('pc-nobuild',m(T,PC,('		err = entity.Build(build)\n		if err != nil {\n			return err\n		}\n',''))),
b('pc-order',m(T,PC,('		err = entity.Reduce(reduce)\n		if err != nil {\n			return err\n		}\n		err = entity.Build(build)\n		if err != nil {\n			return err\n		}\n','		err = entity.Build(build)\n		if err != nil {\n			return err\n		}\n		err = entity.Reduce(reduce)\n		if err != nil {\n			return err\n		}\n'))),
b('pc-err',m(T,PC,('		err = entity.Build(build)\n		if err != nil {\n			return err\n		}\n','		entity.Build(build)\n'))),
b('pc-object',m(T,PC,('reduce, err = toReduce(build.Object)','reduce, err = toReduce(obj)'))),
b('pc-reduce-err',m(T,PC,('		err = entity.Reduce(reduce)\n		if err != nil {\n			return err\n		}\n','		if e := entity.Reduce(reduce); e != nil && !hasBuild {\n			return e\n		}\n'))),
# types
b('dict-int',m(T,'(d *Dict) toInt',('	intValue, ok := value.(int)\n	if !ok {','	intValue, ok := value.(int)\n	if f, isF := value.(float64); isF {\n		return int(f), nil\n	}\n	if !ok {'))),
b('dict-zero',m(T,'(d *Dict) toFloat',('	if err != nil {\n		return 0, err\n	}','	if err != nil {\n		return 0, nil\n	}'))),
b('global-or',m(T,'toGlobal',('name != "" && global.Name != name','name != "" && global.Name != name && module == ""'))),
b('tuple-len',m(T,'toTuple',('length > -1 && len(tuple) != length','length > -1 && len(tuple) < length'))),
# root
b('root-shared',(K,'	gbdt := pickle.SklearnGradientBoosting{}','	gbdt := pickle.SklearnGradientBoosting{}\n	gbdt.InitEstimator.Prior = append(gbdt.InitEstimator.Prior, 0)')),
# equivalent
ok('node-offsets',(S,node,'''func SklearnNodeFromBytes(bytes []byte) SklearnNode {
	i := func(k int) int { return int(int64(binary.LittleEndian.Uint64(bytes[8*k:]))) }
	f := func(k int) float64 { return util.Float64FromBytes(bytes[8*k:8*k+8], true) }
	return SklearnNode{LeftChild: i(0), RightChild: i(1), Feature: i(2), Threshold: f(3), Impurity: f(4), NNodeSamples: i(5), WeightedNNodeSamples: f(6)}
}
''')),
ok('node-chunk',(S,node,'''func SklearnNodeFromBytes(bytes []byte) SklearnNode {
	node := SklearnNode{}
	next := func() []byte {
		b := bytes[:8]
		bytes = bytes[8:]
		return b
	}
	node.LeftChild = int(binary.LittleEndian.Uint64(next()))
	node.RightChild = int(binary.LittleEndian.Uint64(next()))
	node.Feature = int(binary.LittleEndian.Uint64(next()))
	node.Threshold = util.Float64FromBytes(next(), true)
	node.Impurity = util.Float64FromBytes(next(), true)
	node.NNodeSamples = int(binary.LittleEndian.Uint64(next()))
	node.WeightedNNodeSamples = util.Float64FromBytes(next(), true)
	return node
}
''')),
ok('parse-array',(S,'func (t *SklearnTree) Reduce','''func parseArray(obj interface{}, kind string) (NumpyArrayRaw, error) {
	arr := NumpyArrayRaw{}
	if err := ParseClass(&arr, obj); err != nil {
		return arr, err
	}
	if arr.Type.Type != kind {
		return arr, fmt.Errorf("expected %s (got: %#v)", kind, arr.Type)
	}
	return arr, nil
}

func (t *SklearnTree) Reduce'''),m(S,TB,('''	arr := NumpyArrayRaw{}
	err = ParseClass(&arr, nodesObj)
	if err != nil {
		return
	}
	if arr.Type.Type != "V56" {
		return fmt.Errorf("expected arr.Type.Type = \\"V56\\" (got: %s)", arr.Type.Type)
	}
''','''	arr, err := parseArray(nodesObj, "V56")
	if err != nil {
		return
	}
'''),('''	arr = NumpyArrayRaw{}
	err = ParseClass(&arr, valuesObj)
	if err != nil {
		return
	}
	if arr.Type.Type != "f8" {
		return fmt.Errorf("expected ndtype \\"f8\\" (got: %#v)", arr.Type)
	}
''','''	values, err := parseArray(valuesObj, "f8")
	if err != nil {
		return
	}
'''),('''	err = arr.Data.Iterate(8, func(b []byte) error {
		t.Values = append(t.Values, util.Float64FromBytes(b, arr.Type.LittleEndinan))''','''	err = values.Data.Iterate(8, func(b []byte) error {
		t.Values = append(t.Values, util.Float64FromBytes(b, values.Type.LittleEndinan))'''))),
ok('int-array',(S,'func (t *SklearnTree) Reduce','''func intArray(obj interface{}, n int) (out []int, err error) {
	arr := NumpyArrayRaw{}
	err = ParseClass(&arr, obj)
	if err != nil {
		return nil, err
	}
	if len(arr.Shape) != 1 || arr.Shape[0] != n {
		return nil, fmt.Errorf("expected 1 dim array with %d values (got: %v)", n, arr.Shape)
	}
	if arr.Type.Type != "i8" || !arr.Type.LittleEndinan {
		return nil, fmt.Errorf("expected ndtype \\"i8\\" little endian (got: %#v)", arr.Type)
	}
	out = make([]int, 0, n)
	err = arr.Data.Iterate(8, func(b []byte) error {
		out = append(out, int(binary.LittleEndian.Uint64(b)))
		return nil
	})
	return
}

func (t *SklearnTree) Reduce'''),(S,fn(S,TR)[fn(S,TR).index('	arr := Numpy'):],'''	t.Classes, err = intArray(reduce.Args[1], t.NOutputs)
	return
}
'''),),
ok('tree-order',m(S,TB,('''	t.NNodes, err = dict.toInt("node_count")
	if err != nil {
		return
	}
''',''),('	return\n}\n','	t.NNodes, err = dict.toInt("node_count")\n	return\n}\n'))) if False else None,
ok('it-step',m(N,IT,('''	size := len(*b) / length
	for i := 0; i < size; i++ {
		err = parse((*b)[i*length : (i+1)*length])
''','''	for from := 0; from < len(*b); from += length {
		err = parse((*b)[from : from+length])
'''))),
ok('it-data',m(N,IT,('''	size := len(*b) / length
	for i := 0; i < size; i++ {
		err = parse((*b)[i*length : (i+1)*length])
''','''	data := *b
	for i := 0; i*length < len(data); i++ {
		chunk := data[i*length:]
		err = parse(chunk[:length])
'''))),
ok('it-front',m(N,IT,('''	size := len(*b) / length
	for i := 0; i < size; i++ {
		err = parse((*b)[i*length : (i+1)*length])
''','''	for data := *b; len(data) > 0; data = data[length:] {
		err = parse(data[:length])
'''))),
ok('gb-append',m(S,GB,('make([]SklearnDecisionTreeRegressor, arr.Shape[0]*arr.Shape[1])','make([]SklearnDecisionTreeRegressor, 0, len(arr.DataList))'),('''	for i := range arr.DataList {
		err = ParseClass(&t.Estimators[i], arr.DataList[i])
		if err != nil {
			return
		}
''','''	for _, obj := range arr.DataList {
		tree := SklearnDecisionTreeRegressor{}
		if err = ParseClass(&tree, obj); err != nil {
			return
		}
		t.Estimators = append(t.Estimators, tree)
'''))),
ok('gb-local',m(S,GB,('''	for i := range arr.DataList {
		err = ParseClass(&t.Estimators[i], arr.DataList[i])
		if err != nil {
			return
		}
''','''	for i, obj := range arr.DataList {
		var tree SklearnDecisionTreeRegressor
		err = ParseClass(&tree, obj)
		if err != nil {
			return err
		}
		t.Estimators[i] = tree
'''))),
ok('gb-len',m(S,GB,('make([]SklearnDecisionTreeRegressor, arr.Shape[0]*arr.Shape[1])','make([]SklearnDecisionTreeRegressor, len(arr.DataList))'))),
ok('gb-loss',m(S,GB,('''	obj, err := dict.value("loss")
	if err != nil {
		return
	}
	_ /* loss */, err = toUnicode(obj, -1)
	if err != nil {
		return
	}

	obj, err = dict.value("init_")''','''	obj, err := dict.value("init_")'''))),
ok('gb-trees-per-round',m(S,GB,('''	adjNClasses := t.NClasses
	if t.NClasses == 2 {
		adjNClasses = 1
	}
''','''	adjNClasses := treesPerRound(t.NClasses)
''')),(S,'type SKlearnInitEstimator struct','''func treesPerRound(nClasses int) int {
	if nClasses == 2 {
		return 1
	}
	return nClasses
}

type SKlearnInitEstimator struct''')),
ok('init-switch',(S,fn(S,IB),'''func (e *SKlearnInitEstimator) Build(build Build) (err error) {
	dict, err := toDict(build.Args)
	if err != nil {
		return err
	}
	switch e.Name {
	case "LogOddsEstimator":
		obj, err := dict.value("prior")
		if err != nil {
			return err
		}
		var numpyScalar NumpyScalarRaw
		if err := ParseClass(&numpyScalar, obj); err != nil {
			return err
		}
		if numpyScalar.Type.Type != "f8" {
			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
		}
		e.Prior = []float64{util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan)}
		return nil
	case "PriorProbabilityEstimator":
		obj, err := dict.value("priors")
		if err != nil {
			return err
		}
		var numpyArray NumpyArrayRaw
		if err := ParseClass(&numpyArray, obj); err != nil {
			return err
		}
		if numpyArray.Type.Type != "f8" {
			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
		}
		return numpyArray.Data.Iterate(8, func(bytes []byte) error {
			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
			return nil
		})
	}
	return fmt.Errorf("unknown init estimator class: %s", e.Name)
}
''')),
ok('shape-index',m(N,AB,('''	a.Shape = make([]int, 0, len(shapeTuple))
	for _, dimElement := range shapeTuple {
		dim, ok := dimElement.(int)
		if !ok {
			return fmt.Errorf("expected int object (got %T)", dimElement)
		}
		a.Shape = append(a.Shape, dim)
''','''	a.Shape = make([]int, len(shapeTuple))
	for i := range shapeTuple {
		a.Shape[i], ok = shapeTuple[i].(int)
		if !ok {
			return fmt.Errorf("expected int object (got %T)", shapeTuple[i])
		}
'''))),
ok('arr-ifs',m(N,AB,('''	switch x := args[4].(type) {
	case Build, *Reduce:
		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
		err = ParseClass(&a.Data, args[4])
	case *List:
		// sometimes we've got data stored as python list (for array of python objects)
		a.DataList = *x
	default:
		err = fmt.Errorf("unexpected type %T", args[4])
	}
	if err != nil {
		return
	}
	return
''','''	if list, ok := args[4].(*List); ok {
		a.DataList = *list
		return nil
	}
	return ParseClass(&a.Data, args[4])
'''))),
ok('pc-flat',(T,fn(T,PC),'''func ParseClass(entity PythonClass, obj interface{}) (err error) {
	var state *Build
	switch x := obj.(type) {
	case Build:
		state = &x
	case *Reduce:
		state = x.built
	}
	object := obj
	if state != nil {
		object = state.Object
	}
	reduce, err := toReduce(object)
	if err != nil {
		return err
	}
	if err := entity.Reduce(reduce); err != nil {
		return err
	}
	if state == nil {
		return nil
	}
	return entity.Build(*state)
}
''')),
ok('dt-switch',m(N,TYB,("	d.LittleEndinan = endian[0] == '<'\n","	switch endian[0] {\n	case '<':\n		d.LittleEndinan = true\n	default:\n		d.LittleEndinan = false\n	}\n"))),
ok('dt-rename',*[(f,None,None) for f in ()],(N,'type NumpyDType struct {\n	LittleEndinan bool','type NumpyDType struct {\n	LittleEndinan bool // byte order')),
ok('reconstructor',(S,'type SklearnDecisionTreeRegressor struct','''func checkInstance(reduce Reduce, module, name string) (Global, error) {
	if _, err := toGlobal(reduce.Callable, "copy_reg", "_reconstructor"); err != nil {
		return Global{}, err
	}
	if len(reduce.Args) != 3 {
		return Global{}, fmt.Errorf("not expected tuple: %#v", reduce.Args)
	}
	return toGlobal(reduce.Args[0], module, name)
}

type SklearnDecisionTreeRegressor struct'''),(S,fn(S,DR),'''func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
	_, err = checkInstance(reduce, "sklearn.tree.tree", "DecisionTreeRegressor")
	return
}
'''),(S,fn(S,IR),'''func (e *SKlearnInitEstimator) Reduce(reduce Reduce) error {
	class, err := checkInstance(reduce, "sklearn.ensemble.gradient_boosting", "")
	if err != nil {
		return err
	}
	e.Name = class.Name
	return nil
}
''')),
]
cases=[c for c in cases if c]

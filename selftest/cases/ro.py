L='lgensemble.go'; X='xgensemble.go'; XL='xgblinear.go'; E='leaves.go'; T='lgtree.go'
def b(n,*e): return dict(name='ro-'+n,edits=list(e),bug=['C01'])
def ok(n,*e): return dict(name='ok-ro-'+n,edits=list(e),ok=True)
cases=[
b('nanwrite',(X,'	for k := 0; k < e.nRawOutputGroups; k++ {\n		predictions[startIndex+k] = e.BaseScore','	for i, v := range fvals {\n		if math.IsInf(v, 0) {\n			fvals[i] = math.NaN()\n		}\n	}\n	for k := 0; k < e.nRawOutputGroups; k++ {\n		predictions[startIndex+k] = e.BaseScore')),
b('scratch',(E,'	transform transformation.Transform\n}','	transform transformation.Transform\n	raw       []float64\n}'),(E,'		rawPredictions := make([]float64, e.NRawOutputGroups())\n','		if len(e.raw) == 0 {\n			e.raw = make([]float64, e.NRawOutputGroups())\n		}\n		rawPredictions := e.raw\n'),(E,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}, nil}'),(E,'return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}','return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}, nil}'),('lgensemble_io.go','return &Ensemble{e, transform}, nil','return &Ensemble{e, transform, nil}, nil'),('lgensemble_io.go','return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil','return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}, nil}, nil'),('xgensemble_io.go','return &Ensemble{e, transform}, nil','return &Ensemble{e, transform, nil}, nil'),('xgblinear_io.go','return &Ensemble{e, transform}, nil','return &Ensemble{e, transform, nil}, nil'),('skensemble_io.go','return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil','return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}, nil}, nil')),
b('cacheglobal',(T,'func (t *lgTree) predict(','var lastLeaf uint32\n\nfunc (t *lgTree) predict('),(T,'				return t.leafValues[node.Left], node.Left','				lastLeaf = node.Left\n				return t.leafValues[node.Left], lastLeaf')),
b('treecache',(T,'	nCategorical  uint32\n}','	nCategorical  uint32\n	hits          int\n}'),(T,'	idx := uint32(0)\n	for {','	idx := uint32(0)\n	t.hits++\n	for {')),
b('nleaves-cache',(L,'	averageOutput bool\n}','	averageOutput bool\n	leaves        []int\n}'),(L,'	return nleaves\n','	e.leaves = nleaves\n	return nleaves\n')),
b('swapcols',(E,'		start := indptr[i]\n','		start := indptr[i]\n		if i > 0 && indptr[i] < indptr[i-1] {\n			indptr[i] = indptr[i-1]\n		}\n')),
b('trans-state',('transformation/softmax.go','	NClasses int\n}','	NClasses int\n	calls    int\n}'),('transformation/softmax.go','	util.Softmax','	t.calls++\n	util.Softmax'),('lgensemble_io.go','&transformation.TransformSoftmax{objectiveStruct.value}','&transformation.TransformSoftmax{NClasses: objectiveStruct.value}')),
b('inplace',('transformation/exponential.go','	outputPredictions[startIndex] = math.Exp(rawPredictions[0])','	rawPredictions[0] = math.Exp(rawPredictions[0])\n	outputPredictions[startIndex] = rawPredictions[0]')),
b('flags',(T,'			if node.Flags&rightLeaf > 0 {\n				return','			node.Flags &^= catOneHot & missingZero\n			if node.Flags&rightLeaf > 0 {\n				return')),
b('gomaxprocs',(E,'	nBatches := int(math.Ceil(float64(nRows) / BatchSize))\n','	runtime.GOMAXPROCS(nThreads)\n	nBatches := int(math.Ceil(float64(nRows) / BatchSize))\n')),
b('view-shared',(E,'	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','	e.transform = &transformation.TransformRaw{e.NRawOutputGroups()}\n	return e')),
b('captured',(X,'	for k := 0; k < e.nRawOutputGroups; k++ {\n		predictions[startIndex+k] = e.BaseScore','	row := make([]float64, 1)\n	take := func() {\n		row = fvals\n	}\n	if len(fvals) > 1<<12 {\n		take()\n	}\n	row[0] = 0\n	for k := 0; k < e.nRawOutputGroups; k++ {\n		predictions[startIndex+k] = e.BaseScore')),
b('each-value',(E,'	for i := startIndex; i < endIndex; i++ {\n		start := indptr[i]\n','	each := func(f func(v *float64)) {\n		for j := range vals {\n			f(&vals[j])\n		}\n	}\n	each(func(v *float64) {\n		if *v != *v {\n			*v = 0\n		}\n	})\n	for i := startIndex; i < endIndex; i++ {\n		start := indptr[i]\n')),
b('captured-fn',(E,'	for i := startIndex; i < endIndex; i++ {\n		start := indptr[i]\n','	eachRow(endIndex, func(i int) {\n		if vals != nil && indptr[i] < 0 {\n			vals[0] = 0\n		}\n	})\n	for i := startIndex; i < endIndex; i++ {\n		start := indptr[i]\n'),(E,'// NEstimators returns','func eachRow(n int, f func(i int)) {\n	for i := 0; i < n; i++ {\n		f(i)\n	}\n}\n\n// NEstimators returns')),
ok('captured-own',(E,'	for i := startIndex; i < endIndex; i++ {\n		start := indptr[i]\n','	rows := 0\n	eachRow(endIndex, func(i int) {\n		rows++\n	})\n	for i := startIndex; i < endIndex; i++ {\n		start := indptr[i]\n'),(E,'// NEstimators returns','func eachRow(n int, f func(i int)) {\n	for i := 0; i < n; i++ {\n		f(i)\n	}\n}\n\n// NEstimators returns')),
ok('local',(L,'	for i := 0; i < nEstimators; i++ {\n		for k := 0; k < e.nRawOutputGroups; k++ {\n			pred','	trees := e.Trees[:nEstimators*e.nRawOutputGroups]\n	_ = trees\n	for i := 0; i < nEstimators; i++ {\n		for k := 0; k < e.nRawOutputGroups; k++ {\n			pred')),
ok('copyrow',(E,'			fvals := vals[i*ncols : (i+1)*ncols]\n','			fvals := make([]float64, ncols)\n			copy(fvals, vals[i*ncols:(i+1)*ncols])\n')),
ok('nleaves-helper',(L,'			nleaves[groupID*e.NEstimators()+estimatorID] = e.Trees','			tree := &e.Trees[estimatorID*e.NRawOutputGroups()+groupID]\n			nleaves[groupID*e.NEstimators()+estimatorID] = tree.nLeaves()\n			_ = e.Trees')),
]

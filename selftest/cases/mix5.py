# rewrites another author would make around the places where defects are planted
L = 'leaves.go'; LG = 'lgensemble.go'; IO = 'lgensemble_io.go'; TR = 'lgtree.go'; XG = 'xgensemble.go'; XI = 'xgensemble_io.go'
XL = 'xgblinear.go'; XLI = 'xgblinear_io.go'; SK = 'skensemble_io.go'; U = 'util/util.go'; TF = 'transformation/'
R = '/repo/'
l = open(R+L).read(); io = open(R+IO).read(); tr = open(R+TR).read(); xi = open(R+XI).read(); sk = open(R+SK).read(); u = open(R+U).read()
def seg(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
def ok(name, *edits): return dict(name='ok-mix5-' + name, edits=list(edits), ok=True)

single = seg(l, '	if e.NOutputGroups() != 1 {', '}\n\n// Predict calculates')
csrInner = seg(l, '	for i := startIndex; i < endIndex; i++ {\n		start :=', '}\n\n// PredictDense')
feed = '''	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
'''
csrBody = seg(l, '	nRows := len(indptr) - 1', '}\n\nfunc (e *Ensemble) predictCSRInner')
denseBody = seg(l, '	nRows := nrows\n', '}\n\n// NEstimators returns')
pit = seg(l, '	if e.Transformation().Type() == transformation.Raw {', '}\n\nfunc (e *Ensemble) checkNEst')
chk = seg(l, '	if e.transform.Type() == transformation.LeafIndex && len', '}\n\n// PredictSingle calc')
dec = seg(tr, '	if math.IsNaN(fval) && (node', '}\n\nfunc (t *lgTree) categoricalDecision')
cat = seg(tr, '	ifval := int32(fval)', '}\n\nfunc (t *lgTree) decision')
pred = seg(tr, '	if len(t.nodes) == 0 {', '}\n\n// validate checks')
valid = seg(tr, '	if len(t.leafValues) == 0 {', '}\n\nfunc (t *lgTree) findInBitset')
find = seg(tr, '	i1 := pos / 32', '}\n\nfunc (t *lgTree) nLeaves')
counts = seg(io, '	if len(leftChilds) != numNodes ||', '	catThresholds := make')
walkLG = seg(io, '	for len(origNodeIdxStack) > 0 {', '// LGEnsembleFromReader reads')
soft = seg(u, '	// shift by the maximum', '}\n\n// Float64FromBytes')
lgInner = seg(open(R+LG).read(), '	for k := 0; k < e.nRawOutputGroups; k++ {\n		predictions[startIndex+k] = 0.0', '}\n\nfunc (e *lgEnsemble) predictLeaf')
lgLeaf = seg(open(R+LG).read(), '	nResults := e.nRaw', '}\n\nfunc (e *lgEnsemble) adjust')
xgInner = seg(open(R+XG).read(), '	for k := 0; k < e.nRawOutputGroups; k++ {\n		predictions[startIndex+k] = e.Base', '}\n\nfunc (e *xgEnsemble) predictLeaf')
xlInner = seg(open(R+XL).read(), '	for k := 0; k < e.nRawOutputGroups; k++ {', '}\n\nfunc (e *xgLinear) predictLeaf')
obj = seg(io, '		if strings.HasPrefix(objectiveStr, "regression") && ', '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := lgTree')
objParse = seg(io, '	tokens := strings.Split(objective', '}\n\nfunc convertMissing')
skbase = seg(sk, '	scale := gbdt.LearningRate', '	e.Trees = make([]lgTree, 0')
sktrees = seg(sk, '	for i := 0; i < gbdt.NEstimators; i++ {', '	return &Ensemble{e, &trans')

cases = [
# --- prediction
ok('lasterr', (L, single, '''	groups := e.NOutputGroups()
	if groups != 1 || len(fvals) < e.NFeatures() {
		return 0.0
	}
	n := e.adjustNEstimators(nEstimators)
	if e.checkNEstimators(n) != nil {
		return 0.0
	}
	var ret [1]float64
	e.predictInnerAndTransform(fvals, n, ret[:], 0)
	return ret[0]
''')),
ok('single-slice', (L, '''	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]
''', '''	result := make([]float64, 1)
	e.predictInnerAndTransform(fvals, nEstimators, result, 0)
	return result[0]
''')),
ok('checks-shared', (L, '''	nRows := 1
	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
	if e.NFeatures()''', '''	if err := e.checkPredictions(predictions, 1); err != nil {
		return err
	}
	if e.NFeatures()'''), (L, '''	nRows := len(indptr) - 1
	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
''', '''	nRows := len(indptr) - 1
	if err := e.checkPredictions(predictions, nRows); err != nil {
		return err
	}
'''), (L, '''	nRows := nrows
	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
''', '''	nRows := nrows
	if err := e.checkPredictions(predictions, nRows); err != nil {
		return err
	}
'''), (L, '''// PredictSingle calculates prediction for single''', '''func (e *Ensemble) checkPredictions(predictions []float64, nRows int) error {
	need := e.NOutputGroups() * nRows
	if len(predictions) >= need {
		return nil
	}
	return fmt.Errorf("predictions slice too short (should be at least %d)", need)
}

// PredictSingle calculates prediction for single''')),
ok('estimators-helper', (L, '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)
''', '''	nEstimators, err := e.estimatorsToUse(nEstimators)
	if err != nil {
		return err
	}

	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)
'''), (L, '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		fvals''', '''	nEstimators, err := e.estimatorsToUse(nEstimators)
	if err != nil {
		return err
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		fvals'''), (L, '''// PredictSingle calculates prediction for single''', '''func (e *Ensemble) estimatorsToUse(requested int) (int, error) {
	n := e.adjustNEstimators(requested)
	if err := e.checkNEstimators(n); err != nil {
		return 0, err
	}
	return n, nil
}

// PredictSingle calculates prediction for single''')),
ok('feed-step', (L, csrBody, csrBody.replace(feed, '''	for startIndex := 0; startIndex < nRows; startIndex += BatchSize {
		tasks <- startIndex
	}
'''))),
ok('feed-step-both', (L, csrBody, csrBody.replace(feed, '''	for startIndex := 0; startIndex < nRows; startIndex += BatchSize {
		tasks <- startIndex
	}
''')), (L, denseBody, denseBody.replace(feed, '''	for startIndex := 0; startIndex < nRows; startIndex += BatchSize {
		tasks <- startIndex
	}
'''))),
ok('batches-int', (L, csrBody, csrBody.replace('int(math.Ceil(float64(nRows) / BatchSize))', '(nRows + BatchSize - 1) / BatchSize')), (L, denseBody, denseBody.replace('int(math.Ceil(float64(nRows) / BatchSize))', '(nRows + BatchSize - 1) / BatchSize')), (L, '	"math"\n', '')),
ok('threads-switch', (L, csrBody, csrBody.replace('''	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {
		nThreads = runtime.GOMAXPROCS(0)
	}
''', '''	maxThreads := runtime.GOMAXPROCS(0)
	switch {
	case nThreads < 1, nThreads > maxThreads:
		nThreads = maxThreads
	}
'''))),
ok('wg-var', (L, csrBody, csrBody.replace('''	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
''', '''	var wg sync.WaitGroup
	wg.Add(nThreads)
	for i := 0; i < nThreads; i++ {
'''))),
ok('dense-fvals', (L, denseBody, denseBody.replace('e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())', '''row := vals[i*ncols : i*ncols+ncols]
					e.predictInnerAndTransform(row, nEstimators, predictions, i*e.NOutputGroups())'''))),
ok('dense-inner', (L, denseBody, denseBody.replace('''		for i := 0; i < nRows; i++ {
			fvals := vals[i*ncols : (i+1)*ncols]
			e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		}
''', '''		e.predictDenseInner(vals, ncols, 0, nRows, predictions, nEstimators)
''').replace('''				for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
''', '''				e.predictDenseInner(vals, ncols, startIndex, endIndex, predictions, nEstimators)
''')), (L, '''// NEstimators returns number of est''', '''func (e *Ensemble) predictDenseInner(
	vals []float64,
	ncols int,
	startIndex int,
	endIndex int,
	predictions []float64,
	nEstimators int,
) {
	nGroups := e.NOutputGroups()
	for i := startIndex; i < endIndex; i++ {
		fvals := vals[i*ncols : (i+1)*ncols]
		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*nGroups)
	}
}

// NEstimators returns number of est''')),
ok('csr-range', (L, csrInner, '''	nGroups := e.NOutputGroups()
	for i := startIndex; i < endIndex; i++ {
		rowCols := cols[indptr[i]:indptr[i+1]]
		rowVals := vals[indptr[i]:indptr[i+1]]
		for j, col := range rowCols {
			if col >= len(fvals) {
				continue
			}
			fvals[col] = rowVals[j]
		}
		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*nGroups)
		e.resetFVals(fvals)
	}
''')),
ok('csr-col', (L, csrInner, '''	for i := startIndex; i < endIndex; i++ {
		for j := indptr[i]; j < indptr[i+1]; j++ {
			col := cols[j]
			if col < len(fvals) {
				fvals[col] = vals[j]
			}
		}
		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		e.resetFVals(fvals)
	}
''')),
ok('csr-reset-first', (L, csrInner, '''	for i := startIndex; i < endIndex; i++ {
		e.resetFVals(fvals)
		start, end := indptr[i], indptr[i+1]
		for j := start; j < end; j++ {
			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}
		}
		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
	}
'''), (L, csrBody, csrBody.replace('			e.resetFVals(fvals)\n			for', '			for').replace('		e.resetFVals(fvals)\n		e.pred', '		e.pred'))),
ok('pit-local', (L, pit, '''	t := e.transform
	switch t.Type() {
	case transformation.LeafIndex:
		e.predictLeafIndicesInner(fvals, nEstimators, predictions, startIndex)
		return
	case transformation.Raw:
		e.predictInner(fvals, nEstimators, predictions, startIndex)
		return
	}
	raw := make([]float64, e.NRawOutputGroups())
	e.predictInner(fvals, nEstimators, raw, 0)
	t.Transform(raw, predictions, startIndex)
''')),
ok('check-early', (L, chk, '''	if e.transform.Type() != transformation.LeafIndex {
		return nil
	}
	if len(e.NLeaves()) == 0 {
		return fmt.Errorf("leaf indices are not available for %s (no trees in model)", e.Name())
	}
	if total := e.NEstimators(); nEstimators != total {
		return fmt.Errorf("while predicting leaf indices all estimators should be used (provided num. of estimators = %d, should be %d)",
			nEstimators, total)
	}
	return nil
''')),
ok('cols-order', (L, '''	if ncols == 0 || e.NFeatures() > ncols {
		return fmt.Errorf("incorrect number of columns")
	}
	if len(vals) < nRows*ncols {
		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
	}
''', '''	if ncols < e.NFeatures() || ncols == 0 {
		return fmt.Errorf("incorrect number of columns")
	} else if nValues := ncols * nRows; nValues > len(vals) {
		return fmt.Errorf("vals slice too short (should be at least %d)", nValues)
	}
''')),
ok('views-named', (L, '''	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}
''', '''	transform := &transformation.TransformRaw{NumOutputGroups: e.NRawOutputGroups()}
	return &Ensemble{ensembleBaseInterface: e, transform: transform}
'''), (L, '''	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}
''', '''	var transform transformation.Transform
	n := e.NEstimators() * e.NRawOutputGroups()
	transform = &transformation.TransformLeafIndex{NumOutputGroups: n}
	return &Ensemble{ensembleBaseInterface: e, transform: transform}
''')),
# --- trees
ok('num-default', (TR, dec, '''	isNaN := math.IsNaN(fval)
	if isNaN && node.Flags&missingNan == 0 {
		fval, isNaN = 0.0, false
	}
	missing := node.Flags&missingNan > 0 && isNaN
	if !missing {
		missing = node.Flags&missingZero > 0 && isZero(fval)
	}
	if missing {
		return node.Flags&defaultLeft > 0
	}
	return fval <= node.Threshold
''')),
ok('num-nan-first', (TR, dec, '''	if math.IsNaN(fval) {
		if node.Flags&missingNan > 0 {
			return node.Flags&defaultLeft > 0
		}
		fval = 0.0
	}
	if node.Flags&missingZero > 0 && isZero(fval) {
		return node.Flags&defaultLeft > 0
	}
	return fval <= node.Threshold
''')),
ok('flag-method', (TR, dec, '''	if math.IsNaN(fval) && !node.has(missingNan) {
		fval = 0.0
	}
	if (node.has(missingZero) && isZero(fval)) || (node.has(missingNan) && math.IsNaN(fval)) {
		return node.has(defaultLeft)
	}
	return fval <= node.Threshold
'''), (TR, 'type lgTree struct {', '''func (n *lgNode) has(flag uint8) bool {
	return n.Flags&flag != 0
}

type lgTree struct {''')),
ok('flag-method-pred', (TR, pred, '''	if len(t.nodes) == 0 {
		return t.leafValues[0], 0
	}
	for idx := uint32(0); ; {
		node := &t.nodes[idx]
		next, isLeaf := node.child(t.decision(node, fvals[node.Feature]), idx)
		if isLeaf {
			return t.leafValues[next], next
		}
		idx = next
	}
'''), (TR, 'type lgTree struct {', '''// child returns index of the chosen child and whether it is a leaf
func (n *lgNode) child(left bool, idx uint32) (uint32, bool) {
	if left {
		return n.Left, n.Flags&leftLeaf > 0
	}
	if n.Flags&rightLeaf > 0 {
		return n.Right, true
	}
	return idx + 1, false
}

type lgTree struct {''')),
ok('pred-right', (TR, pred, pred.replace('			idx++\n', '			idx = node.Right\n'))),
ok('pred-value', (TR, pred, pred.replace('node := &t.nodes[idx]', 'node := t.nodes[idx]').replace('t.decision(node,', 't.decision(&node,'))),
ok('pred-nodes-local', (TR, pred, '''	nodes := t.nodes
	if len(nodes) == 0 {
		return t.leafValues[0], 0
	}
	var idx uint32
	for {
		node := &nodes[idx]
		if t.decision(node, fvals[node.Feature]) {
			if node.Flags&leftLeaf != 0 {
				idx = node.Left
				break
			}
			idx = node.Left
			continue
		}
		if node.Flags&rightLeaf != 0 {
			idx = node.Right
			break
		}
		idx++
	}
	return t.leafValues[idx], idx
''')),
ok('cat-switch', (TR, cat, '''	ifval := int32(fval)
	if ifval < 0 {
		return false
	}
	if math.IsNaN(fval) {
		if node.Flags&missingNan > 0 {
			return false
		}
		ifval = 0
	}
	category, threshold := uint32(ifval), uint32(node.Threshold)
	switch {
	case node.Flags&catOneHot > 0:
		return int32(node.Threshold) == ifval
	case node.Flags&catSmall > 0:
		return util.FindInBitsetUint32(threshold, category)
	default:
		return t.findInBitset(threshold, category)
	}
''')),
ok('find-slice', (TR, find, '''	bitset := t.catThresholds[t.catBoundaries[idx]:t.catBoundaries[idx+1]]
	word := pos / 32
	if int(word) >= len(bitset) {
		return false
	}
	return bitset[word]>>(pos%32)&1 == 1
''')),
ok('find-util', (TR, find, '''	i1 := pos / 32
	begin, end := t.catBoundaries[idx], t.catBoundaries[idx+1]
	if i1 < end-begin {
		return util.FindInBitsetUint32(t.catThresholds[begin+i1], pos%32)
	}
	return false
''')),
ok('find-shift', (TR, find, '''	i1 := pos >> 5
	idxS := t.catBoundaries[idx]
	idxE := t.catBoundaries[idx+1]
	if i1 >= (idxE - idxS) {
		return false
	}
	i2 := pos & 31
	return t.catThresholds[idxS+i1]&(1<<i2) != 0
''')),
ok('valid-int', (TR, valid, '''	nNodes, nLeaves := len(t.nodes), len(t.leafValues)
	if nLeaves == 0 {
		return fmt.Errorf("tree without leaf values")
	}
	for i, node := range t.nodes {
		if int64(node.Feature) >= int64(nFeatures) {
			return fmt.Errorf("node %d: wrong feature index %d (number of features is %d)", i, node.Feature, nFeatures)
		}
		isBigSet := node.Flags&categorical > 0 && node.Flags&(catOneHot|catSmall) == 0
		if isBigSet && int64(node.Threshold)+1 >= int64(len(t.catBoundaries)) {
			return fmt.Errorf("node %d: categories not found in the tree", i)
		}
		left, right := int64(node.Left), int64(node.Right)
		switch {
		case node.Flags&leftLeaf > 0:
			if left >= int64(nLeaves) {
				return fmt.Errorf("node %d: wrong left leaf index %d", i, node.Left)
			}
		case left <= int64(i), left >= int64(nNodes):
			return fmt.Errorf("node %d: wrong left child index %d", i, node.Left)
		}
		switch {
		case node.Flags&rightLeaf > 0:
			if right >= int64(nLeaves) {
				return fmt.Errorf("node %d: wrong right leaf index %d", i, node.Right)
			}
		case right != int64(i)+1, right >= int64(nNodes):
			return fmt.Errorf("node %d: wrong right child index %d", i, node.Right)
		}
	}
	return nil
''')),
ok('iszero', (TR, '	return (fval > -zeroThreshold && fval <= zeroThreshold)\n', '''	if fval <= -zeroThreshold || fval > zeroThreshold {
		return false
	}
	return fval == fval
''')),
ok('node-literal', (TR, '''	node := lgNode{}
	node.Feature = feature
	node.Flags = categorical | missingType | catType
	node.Threshold = float64(threshold)
	return node
''', '''	return lgNode{
		Feature:   feature,
		Flags:     categorical | missingType | catType,
		Threshold: float64(threshold),
	}
''')),
# --- ensembles
ok('lg-row', (LG, lgInner, '''	out := predictions[startIndex : startIndex+e.nRawOutputGroups]
	for k := range out {
		out[k] = 0.0
	}
	weight := 1.0
	if e.averageOutput {
		weight = 1.0 / float64(nEstimators)
	}
	nTrees := nEstimators * e.nRawOutputGroups
	for t := 0; t < nTrees; t++ {
		pred, _ := e.Trees[t].predict(fvals)
		out[t%e.nRawOutputGroups] += pred * weight
	}
''')),
ok('lg-swap', (LG, lgInner, '''	coef := 1.0
	if e.averageOutput {
		coef = 1.0 / float64(nEstimators)
	}

	for k := 0; k < e.nRawOutputGroups; k++ {
		sum := 0.0
		for i := 0; i < nEstimators; i++ {
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			sum += pred * coef
		}
		predictions[startIndex+k] = sum
	}
''')),
ok('lg-treeat', (LG, 'pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)', 'pred, _ := e.tree(i, k).predict(fvals)'),
  (LG, '_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)', '_, idx := e.tree(i, k).predict(fvals)'),
  (LG, 'e.Trees[estimatorID*e.NRawOutputGroups()+groupID].nLeaves()', 'e.tree(estimatorID, groupID).nLeaves()'),
  (LG, 'func (e *lgEnsemble) Name() string', '''// tree returns the tree of the estimator for the group
func (e *lgEnsemble) tree(estimatorID int, groupID int) *lgTree {
	return &e.Trees[estimatorID*e.nRawOutputGroups+groupID]
}

func (e *lgEnsemble) Name() string''')),
ok('lg-leaf-nozero', (LG, lgLeaf, '''	for k := 0; k < e.nRawOutputGroups; k++ {
		groupStart := startIndex + k*nEstimators
		for i := 0; i < nEstimators; i++ {
			_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[groupStart+i] = float64(idx)
		}
	}
''')),
ok('xg-group-outer', (XG, xgInner, '''	nGroups := e.nRawOutputGroups
	for k := 0; k < nGroups; k++ {
		score := e.BaseScore
		for treeID := k; treeID < nEstimators*nGroups; treeID += nGroups {
			pred, _ := e.Trees[treeID].predict(fvals)
			score += pred * e.WeightDrop[treeID]
		}
		predictions[startIndex+k] = score
	}
''')),
ok('xg-counter', (XG, xgInner, '''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = e.BaseScore
	}

	treeID := 0
	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ := e.Trees[treeID].predict(fvals)
			predictions[startIndex+k] += e.WeightDrop[treeID] * pred
			treeID++
		}
	}
''')),
ok('xl-sum', (XL, xlInner, '''	bias := e.Weights[e.NumFeature*e.nRawOutputGroups:]
	for k := 0; k < e.nRawOutputGroups; k++ {
		sum := e.BaseScore + float64(bias[k])
		for i := 0; i < e.NumFeature; i++ {
			sum += fvals[i] * float64(e.Weights[i*e.nRawOutputGroups+k])
		}
		predictions[startIndex+k] = sum
	}
''')),
ok('xl-weight', (XL, xlInner, '''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = e.BaseScore + e.weight(e.NumFeature, k)
		for i := 0; i < e.NumFeature; i++ {
			predictions[startIndex+k] += fvals[i] * e.weight(i, k)
		}
	}
'''), (XL, 'func (e *xgLinear) Name()', '''func (e *xgLinear) weight(i int, k int) float64 {
	return float64(e.Weights[e.nRawOutputGroups*i+k])
}

func (e *xgLinear) Name()''')),
ok('adjust-early', (LG, '''	if nEstimators > 0 {
		nEstimators = util.MinInt(nEstimators, e.NEstimators())
	} else {
		nEstimators = e.NEstimators()
	}
	return nEstimators
''', '''	total := e.NEstimators()
	if nEstimators <= 0 || nEstimators > total {
		return total
	}
	return nEstimators
'''), (LG, '''import (
	"github.com/dmitryikh/leaves/util"
)

''', '')),
ok('nfeat', (LG, '''	if e.MaxFeatureIdx >= 0 {
		return e.MaxFeatureIdx + 1
	}
	return 0
''', '''	if e.MaxFeatureIdx < 0 {
		return 0
	}
	return e.MaxFeatureIdx + 1
''')),
ok('nleaves-append', (LG, '''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID := 0; estimatorID < e.NEstimators(); estimatorID++ {
		for groupID := 0; groupID < e.NRawOutputGroups(); groupID++ {
			nleaves[groupID*e.NEstimators()+estimatorID] = e.Trees[estimatorID*e.NRawOutputGroups()+groupID].nLeaves()
		}
	}
	return nleaves
''', '''	nEstimators, nGroups := e.NEstimators(), e.NRawOutputGroups()
	nleaves := make([]int, 0, nEstimators*nGroups)
	for groupID := 0; groupID < nGroups; groupID++ {
		for estimatorID := 0; estimatorID < nEstimators; estimatorID++ {
			nleaves = append(nleaves, e.Trees[estimatorID*nGroups+groupID].nLeaves())
		}
	}
	return nleaves
''')),
ok('reset-nan-local', (XG, '''	for j := 0; j < len(fvals); j++ {
		fvals[j] = math.NaN()
	}
''', '''	nan := math.NaN()
	for j := range fvals {
		fvals[j] = nan
	}
''')),
# --- transformations
ok('sig-neg', (U, '	return 1.0 / (1.0 + math.Exp(-x))\n', '''	e := math.Exp(-x)
	return 1.0 / (1.0 + e)
''')),
ok('tf-copy', (TF+'raw.go', '''	for i, v := range rawPredictions {
		outputPredictions[startIndex+i] = v
	}
	return nil
''', '''	copy(outputPredictions[startIndex:], rawPredictions)
	return nil
''')),
ok('tf-check', (TF+'logistic.go', '''	if len(rawPredictions) != 1 {
		return fmt.Errorf("expected len(rawPredictions) = 1 (got %d)", len(rawPredictions))
	}

	outputPredictions[startIndex] = util.Sigmoid(rawPredictions[0])
	return nil
''', '''	if err := checkSize(rawPredictions, t.NOutputGroups()); err != nil {
		return err
	}
	outputPredictions[startIndex] = util.Sigmoid(rawPredictions[0])
	return nil
'''), (TF+'logistic.go', '''import (
	"fmt"

	"github.com/dmitryikh/leaves/util"
)
''', '''import "github.com/dmitryikh/leaves/util"
'''), (TF+'exponential.go', '''	if len(rawPredictions) != 1 {
		return fmt.Errorf("expected len(rawPredictions) = 1 (got %d)", len(rawPredictions))
	}
''', '''	if err := checkSize(rawPredictions, t.NOutputGroups()); err != nil {
		return err
	}
'''), (TF+'exponential.go', 'type TransformExponential struct{}', '''func checkSize(rawPredictions []float64, expected int) error {
	if len(rawPredictions) != expected {
		return fmt.Errorf("expected len(rawPredictions) = %d (got %d)", expected, len(rawPredictions))
	}
	return nil
}

type TransformExponential struct{}''')),
ok('soft-two', (U, soft, '''	n := len(rawValues)
	if n == 0 {
		return
	}
	out := outputValues[startIndex : startIndex+n]
	max := rawValues[0]
	for i := 1; i < n; i++ {
		max = math.Max(max, rawValues[i])
	}
	sum := 0.0
	for i := 0; i < n; i++ {
		out[i] = math.Exp(rawValues[i] - max)
		sum += out[i]
	}
	if sum != 0.0 {
		inv := 1.0 / sum
		for i := range out {
			out[i] *= inv
		}
	}
''')),
ok('soft-div', (U, soft, soft.replace('''		inv_sum := 1.0 / sum
''', '').replace('outputValues[i] *= inv_sum', 'outputValues[i] /= sum'))),
# --- loaders
ok('lg-counts-loop', (IO, counts, '''	for _, n := range []int{len(leftChilds), len(rightChilds), len(decisionTypes), len(splitFeatures), len(thresholds)} {
		if n != numNodes {
			return t, fmt.Errorf("unexpected number of nodes (num_leaves is %d)", numLeaves)
		}
	}

''')),
ok('lg-counts-helper', (IO, counts, '''	if !allEqual(numNodes, len(leftChilds), len(rightChilds), len(decisionTypes), len(splitFeatures), len(thresholds)) {
		return t, fmt.Errorf("unexpected number of nodes (num_leaves is %d)", numLeaves)
	}

'''), (IO, 'func lgTreeFromReader(', '''func allEqual(n int, sizes ...int) bool {
	for _, size := range sizes {
		if size != n {
			return false
		}
	}
	return true
}

func lgTreeFromReader(''')),
ok('lg-counts-each', (IO, counts, '''	if len(leftChilds) != numNodes {
		return t, fmt.Errorf("unexpected number of left_child (%d)", len(leftChilds))
	}
	if len(rightChilds) != numNodes {
		return t, fmt.Errorf("unexpected number of right_child (%d)", len(rightChilds))
	}
	if len(decisionTypes) != numNodes {
		return t, fmt.Errorf("unexpected number of decision_type (%d)", len(decisionTypes))
	}
	if len(splitFeatures) != numNodes {
		return t, fmt.Errorf("unexpected number of split_feature (%d)", len(splitFeatures))
	}
	if len(thresholds) != numNodes {
		return t, fmt.Errorf("unexpected number of threshold (%d)", len(thresholds))
	}

''')),
ok('lg-objparse', (IO, objParse, '''	objectiveStruct := lgObjective{}
	errorMsg := fmt.Errorf("unexpected objective field: '%s'", objective)
	tokens := strings.Split(objective, " ")
	if len(tokens) != 2 {
		return objectiveStruct, errorMsg
	}
	params := strings.Split(tokens[1], ":")
	if len(params) != 2 {
		return objectiveStruct, errorMsg
	}
	value, err := strconv.Atoi(params[1])
	if err != nil {
		return objectiveStruct, errorMsg
	}
	return lgObjective{name: tokens[0], param: params[0], value: value}, nil
''')),
ok('lg-obj-switch', (IO, obj, '''		isRegression := strings.HasPrefix(objectiveStr, "regression")
		switch {
		case isRegression && strings.HasSuffix(objectiveStr, " sqrt"):
			// reg_sqrt: raw scores are square roots of the predictions
			return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
		case isRegression:
			// no transformation for regression
		case objectiveStr == "poisson", objectiveStr == "gamma", objectiveStr == "tweedie":
			if e.nRawOutputGroups != 1 {
				return nil, fmt.Errorf("got objective '%s' with %d output groups", objectiveStr, e.nRawOutputGroups)
			}
			transform = &transformation.TransformExponential{}
		default:
			objective, err := lgObjectiveParse(objectiveStr)
			if err != nil {
				return nil, err
			}
			switch {
			case objective.name == "binary" && objective.param == "sigmoid":
				if objective.value != 1 {
					return nil, fmt.Errorf("got sigmoid with value != 1 (got %d)", objective.value)
				}
				if e.nRawOutputGroups != 1 {
					return nil, fmt.Errorf("got binary objective with %d output groups", e.nRawOutputGroups)
				}
				transform = &transformation.TransformLogistic{}
			case objective.name == "multiclass" && objective.param == "num_class":
				if objective.value != e.nRawOutputGroups {
					return nil, fmt.Errorf("got multiclass num_class != %d (got %d)", e.nRawOutputGroups, objective.value)
				}
				transform = &transformation.TransformSoftmax{NClasses: objective.value}
			default:
				return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
			}
		}
	}

''')),
ok('lg-validate-in-tree', (IO, '''		tree, err := lgTreeFromReader(reader)
		if err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
		if err := tree.validate(e.NFeatures()); err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
''', '''		tree, err := lgTreeFromReader(reader)
		if err == nil {
			err = tree.validate(e.NFeatures())
		}
		if err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
''')),
ok('lg-missing-fn', (IO, '''		missingType, err := convertMissingType(decisionTypes[idx])
		if err != nil {
			return node, err
		}
		defaultType := uint8(0)
		if decisionTypes[idx]&(1<<1) > 0 {
			defaultType = defaultLeft
		}
		node = numericalNode''', '''		decisionType := decisionTypes[idx]
		missingType, err := convertMissingType(decisionType)
		if err != nil {
			return node, err
		}
		var defaultType uint8
		if isLeft := decisionType>>1&1 == 1; isLeft {
			defaultType = defaultLeft
		}
		node = numericalNode''')),
ok('js-missing-switch', (IO, '''var stringToMissingType = map[string]uint8{
	"None": 0,
	"Zero": missingZero,
	"NaN":  missingNan,
}
''', '''func stringToMissingType(name string) (uint8, error) {
	switch name {
	case "None":
		return 0, nil
	case "Zero":
		return missingZero, nil
	case "NaN":
		return missingNan, nil
	}
	return 0, fmt.Errorf("unknown missing_type '%s'", name)
}
'''), (IO, '''		missingType, isFound := stringToMissingType[nodeJSON.MissingType]
		if !isFound {
			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
		}
		defaultType''', '''		missingType, err := stringToMissingType(nodeJSON.MissingType)
		if err != nil {
			return node, err
		}
		defaultType'''), (IO, '''		missingType, isFound := stringToMissingType[nodeJSON.MissingType]
		if !isFound {
			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
		}

''', '''		missingType, err := stringToMissingType(nodeJSON.MissingType)
		if err != nil {
			return node, err
		}

''')),
ok('js-unnode-struct', (IO, '''		data := make(map[string]interface{})
		err = json.Unmarshal(raw, &data)
		if err != nil {
			return nil, err
		}
		value, ok := data["leaf_value"].(float64)
		if !ok {
			return nil, fmt.Errorf("unknown tree")
		}
		return value, nil
''', '''		var data map[string]interface{}
		if err := json.Unmarshal(raw, &data); err != nil {
			return nil, err
		}
		if value, ok := data["leaf_value"].(float64); ok {
			return value, nil
		}
		return nil, fmt.Errorf("unknown tree")
''')),
ok('xg-split', (XI, '	return origNode.SIndex & ((1 << 31) - 1)\n', '	return origNode.SIndex &^ (1 << 31)\n'), (XI, '	return (origNode.SIndex >> 31) != 0\n', '	return origNode.SIndex&(1<<31) > 0\n')),
ok('xg-tree-val', (XI, '''	createNode := func(origNode *xgbin.Node) (lgNode, error) {''', '''	addLeaf := func(leaf *xgbin.Node) uint32 {
		t.leafValues = append(t.leafValues, float64(leaf.Info))
		return uint32(len(t.leafValues) - 1)
	}
	createNode := func(origNode *xgbin.Node) (lgNode, error) {'''), (XI, '''			node.Left = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, float64(origTree.Nodes[origNode.CLeft].Info))
''', '''			node.Left = addLeaf(&origTree.Nodes[origNode.CLeft])
'''), (XI, '''			node.Right = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, float64(origTree.Nodes[origNode.CRight].Info))
''', '''			node.Right = addLeaf(&origTree.Nodes[origNode.CRight])
''')),
ok('xg-dart-flag', (XI, '''	if header.NameGbm == "gbtree" {
		e.name = "xgboost.gbtree"
	} else if header.NameGbm == "dart" {
		e.name = "xgboost.dart"
	} else {
		return nil, fmt.Errorf("only 'gbtree' or 'dart' is supported (got %s)", header.NameGbm)
	}
''', '''	isDart := header.NameGbm == "dart"
	switch {
	case isDart:
		e.name = "xgboost.dart"
	case header.NameGbm == "gbtree":
		e.name = "xgboost.gbtree"
	default:
		return nil, fmt.Errorf("only 'gbtree' or 'dart' is supported (got %s)", header.NameGbm)
	}
'''), (XI, '''	if header.NameGbm == "dart" {
		// read''', '''	if isDart {
		// read'''), (XI, '''	} else if header.NameGbm == "gbtree" {
		// use 1.0 as default. 1.0 scale will not break down anything
		for i := 0; i < int(origModel.Param.NumTrees); i++ {
			e.WeightDrop[i] = 1.0
		}
	} else {
		return nil, fmt.Errorf("unsupported model type (got: %s)", header.NameGbm)
	}
''', '''	} else {
		for i := range e.WeightDrop {
			e.WeightDrop[i] = 1.0
		}
	}
''')),
ok('xg-pattern-fn', (XI, seg(xi, '	{\n		// Check that TreeInfo', '	var transform transformation'), '''	if !hasExpectedPattern(origModel.TreeInfo, e.nRawOutputGroups) {
		return nil, fmt.Errorf("TreeInfo expected to have pattern [0 1 2 0 1 2...] (got %v)", origModel.TreeInfo)
	}

'''), (XI, '// XGEnsembleFromReader reads', '''func hasExpectedPattern(treeInfo []int32, nGroups int) bool {
	for i, groupID := range treeInfo {
		if int(groupID) != i%nGroups {
			return false
		}
	}
	return true
}

// XGEnsembleFromReader reads''')),
ok('sk-base-once', (SK, skbase+seg(sk, '	e.Trees = make([]lgTree, 0, gbdt', '	for i := 0; i < gbdt.NEst')+sktrees, skbase+'''	e.Trees = make([]lgTree, 0, len(gbdt.Estimators))
	for treeNum := range gbdt.Estimators {
		treeBase := 0.0
		if treeNum < e.nRawOutputGroups {
			// initial value is added to the first estimator
			treeBase = base[treeNum]
		}
		tree, err := lgTreeFromSklearnDecisionTreeRegressor(gbdt.Estimators[treeNum], scale, treeBase)
		if err != nil {
			return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
		}
		if err := tree.validate(e.NFeatures()); err != nil {
			return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
		}
		e.Trees = append(e.Trees, tree)
	}
''')),
ok('sk-base-if', (SK, sktrees, sktrees.replace('''		for k := range base {
			base[k] = 0.0
		}
''', '').replace('scale, base[j])', 'scale, treeBase)').replace('''			tree, err := lg''', '''			treeBase := 0.0
			if i == 0 {
				treeBase = base[j]
			}
			tree, err := lg'''))),
ok('sk-name-const', (SK, '	e := &lgEnsemble{name: "sklearn.ensemble.GradientBoostingClassifier"}\n', '	e := &lgEnsemble{}\n	e.name = skName\n'), (SK, '// SKEnsembleFromReader reads', '''const skName = "sklearn.ensemble.GradientBoostingClassifier"

// SKEnsembleFromReader reads''')),
]

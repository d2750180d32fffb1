# larger rewrites of the entry points and ensembles
L = 'leaves.go'
s = open('/repo/leaves.go').read()
def seg(a, b, src=s):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
dense = seg('\tif nRows <= BatchSize || nThreads == 0 || nThreads == 1 {\n\t\t// single thread calculations\n\t\tfor i := 0', '\n// NEstimators returns')
csr = seg('\tif nRows <= BatchSize || nThreads == 0 || nThreads == 1 {\n\t\t// single thread calculations\n\t\tfvals', '\nfunc (e *Ensemble) predictCSRInner')
denseWork = dense[dense.index('\ttasks := make(chan int)'):dense.rindex('\treturn nil')]
csrWork = seg('\ttasks := make(chan int)', '\treturn nil\n}\n\nfunc (e *Ensemble) predictCSRInner')
inner = seg('\tfor i := startIndex; i < endIndex; i++ {\n\t\tstart := indptr', '\n// PredictDense')
nth = '''	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {
		nThreads = runtime.GOMAXPROCS(0)
	}
	nBatches := int(math.Ceil(float64(nRows) / BatchSize))
	if nThreads > nBatches {
		nThreads = nBatches
	}
'''
assert s.count(nth) == 2
tail = '\n// NEstimators returns number of estimators (trees) in ensemble (per group)'
def ok(name, *edits): return dict(name='ok-mix-' + name, edits=list(edits), ok=True)
rest_import = ('leaves.go', '\t"math"\n', '')
threads_helper = '''
func numWorkers(nThreads, nBatches int) int {
	maxThreads := runtime.GOMAXPROCS(0)
	if nThreads < 1 || nThreads > maxThreads {
		nThreads = maxThreads
	}
	if nBatches < nThreads {
		return nBatches
	}
	return nThreads
}
'''
nth2 = '''	nBatches := (nRows + BatchSize - 1) / BatchSize
	nThreads = numWorkers(nThreads, nBatches)
'''
cases = [
ok('threads-helper', (L, nth, nth2), (L, nth, nth2), rest_import, (L, tail, threads_helper + tail)),
ok('batch-helper', (L, denseWork, '''	runBatches(nRows, nBatches, nThreads, func(begin, end int) {
		for i := begin; i < end; i++ {
			e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
		}
	})
'''), (L, tail, '''
func runBatches(nRows, nBatches, nThreads int, work func(begin, end int)) {
	tasks := make(chan int)
	var wg sync.WaitGroup
	wg.Add(nThreads)
	for t := 0; t < nThreads; t++ {
		go func() {
			defer wg.Done()
			for begin := range tasks {
				end := begin + BatchSize
				if end > nRows {
					end = nRows
				}
				work(begin, end)
			}
		}()
	}
	for b := 0; b < nBatches; b++ {
		tasks <- b * BatchSize
	}
	close(tasks)
	wg.Wait()
}
''' + tail)),
ok('batch-helper-both', (L, denseWork, '''	runBatches(nRows, nBatches, nThreads, func() func(int, int) {
		return func(begin, end int) {
			for i := begin; i < end; i++ {
				e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
			}
		}
	})
'''), (L, csrWork, '''	runBatches(nRows, nBatches, nThreads, func() func(int, int) {
		fvals := make([]float64, e.NFeatures())
		e.resetFVals(fvals)
		return func(begin, end int) {
			e.predictCSRInner(indptr, cols, vals, begin, end, predictions, nEstimators, fvals)
		}
	})
'''), (L, tail, '''
func runBatches(nRows, nBatches, nThreads int, newWorker func() func(begin, end int)) {
	tasks := make(chan int)
	var wg sync.WaitGroup
	for t := 0; t < nThreads; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			work := newWorker()
			for begin := range tasks {
				end := begin + BatchSize
				if end > nRows {
					end = nRows
				}
				work(begin, end)
			}
		}()
	}
	for b := 0; b < nBatches; b++ {
		tasks <- b * BatchSize
	}
	close(tasks)
	wg.Wait()
}
''' + tail)),
ok('worker-method', (L, csrWork, '''	tasks := make(chan int)
	wg := &sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go e.csrWorker(tasks, wg, indptr, cols, vals, predictions, nEstimators)
	}
	for start := 0; start < nRows; start += BatchSize {
		tasks <- start
	}
	close(tasks)
	wg.Wait()
'''), (L, tail, '''
func (e *Ensemble) csrWorker(tasks <-chan int, wg *sync.WaitGroup, indptr, cols []int, vals, predictions []float64, nEstimators int) {
	defer wg.Done()
	nRows := len(indptr) - 1
	fvals := make([]float64, e.NFeatures())
	e.resetFVals(fvals)
	for startIndex := range tasks {
		endIndex := startIndex + BatchSize
		if endIndex > nRows {
			endIndex = nRows
		}
		e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals)
	}
}
''' + tail)),
ok('min-end', (L, '''				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}

				e.predictCSR''', '''				endIndex := util.MinInt(startIndex+BatchSize, nRows)
				e.predictCSR'''), (L, '"github.com/dmitryikh/leaves/transformation"\n', '"github.com/dmitryikh/leaves/transformation"\n\t"github.com/dmitryikh/leaves/util"\n')),
ok('task-struct', (L, denseWork, '''	type span struct{ from, to int }
	tasks := make(chan span)
	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range tasks {
				for i := s.from; i < s.to; i++ {
					e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
				}
			}
		}()
	}
	for from := 0; from < nRows; from += BatchSize {
		to := from + BatchSize
		if to > nRows {
			to = nRows
		}
		tasks <- span{from, to}
	}
	close(tasks)
	wg.Wait()
''')),
ok('batch-number', (L, '''		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()
	return nil
}

func''', '''		tasks <- i
	}
	close(tasks)
	wg.Wait()
	return nil
}

func'''), (L, '''			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}

				e''', '''			for batch := range tasks {
				startIndex := batch * BatchSize
				endIndex := (batch + 1) * BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}

				e''')),
ok('recv-ok', (L, '''			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}

				e''', '''			for {
				startIndex, more := <-tasks
				if !more {
					return
				}
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				e''')),
ok('early-serial', (L, '	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {\n\t\t// single thread calculations\n\t\tfor', '	serial := nThreads == 0 || nThreads == 1 || nRows <= BatchSize\n\tif serial {\n\t\tfor')),
ok('dense-ranges', (L, '''		for i := 0; i < nRows; i++ {
			fvals := vals[i*ncols : (i+1)*ncols]
			e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		}
		return nil''', '''		e.predictDenseInner(vals, ncols, 0, nRows, predictions, nEstimators)
		return nil'''), (L, '''				for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
''', '''				e.predictDenseInner(vals, ncols, startIndex, endIndex, predictions, nEstimators)
'''), (L, tail, '''
func (e *Ensemble) predictDenseInner(vals []float64, ncols, startIndex, endIndex int, predictions []float64, nEstimators int) {
	nOut := e.NOutputGroups()
	for i := startIndex; i < endIndex; i++ {
		row := vals[i*ncols : (i+1)*ncols]
		e.predictInnerAndTransform(row, nEstimators, predictions, i*nOut)
	}
}
''' + tail)),
ok('inner-range', (L, inner, '''	nOut := e.NOutputGroups()
	out := startIndex * nOut
	for i := startIndex; i < endIndex; i++ {
		rowCols := cols[indptr[i]:indptr[i+1]]
		rowVals := vals[indptr[i]:indptr[i+1]]
		for j, col := range rowCols {
			if col >= len(fvals) {
				continue
			}
			fvals[col] = rowVals[j]
		}

		e.predictInnerAndTransform(fvals, nEstimators, predictions, out)
		out += nOut
		e.resetFVals(fvals)
	}
}
''')),
ok('fill-row', (L, '''		start := indptr[i]
		end := indptr[i+1]
		for j := start; j < end; j++ {
			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}
		}
''', '''		fillRow(fvals, cols, vals, indptr[i], indptr[i+1])
'''), (L, tail, '''
func fillRow(fvals []float64, cols []int, vals []float64, start, end int) {
	nFeatures := len(fvals)
	for j := start; j < end; j++ {
		if c := cols[j]; c < nFeatures {
			fvals[c] = vals[j]
		}
	}
}
''' + tail)),
ok('pit-switch', (L, seg('	if e.Transformation().Type() == transformation.Raw', '\nfunc (e *Ensemble) checkNEst'), '''	switch e.transform.Type() {
	case transformation.LeafIndex:
		e.predictLeafIndicesInner(fvals, nEstimators, predictions, startIndex)
		return
	case transformation.Raw:
		e.predictInner(fvals, nEstimators, predictions, startIndex)
		return
	}
	raw := make([]float64, e.NRawOutputGroups())
	e.predictInner(fvals, nEstimators, raw, 0)
	e.transform.Transform(raw, predictions, startIndex)
}
''')),
ok('check-nest', (L, seg('	if e.transform.Type() == transformation.LeafIndex && len', '\n// PredictSingle'), '''	if e.transform.Type() != transformation.LeafIndex {
		return nil
	}
	if len(e.NLeaves()) == 0 {
		return fmt.Errorf("leaf indices are not available for %s (no trees in model)", e.Name())
	}
	if all := e.NEstimators(); nEstimators != all {
		return fmt.Errorf("while predicting leaf indices all estimators should be used (provided num. of estimators = %d, should be %d)",
			nEstimators, all)
	}
	return nil
}
''')),
ok('single-predict', (L, '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return 0.0
	}
	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]''', '''	nEstimators = e.adjustNEstimators(nEstimators)
	if e.checkNEstimators(nEstimators) != nil {
		return 0.0
	}
	ret := make([]float64, 1)
	e.predictInnerAndTransform(fvals, nEstimators, ret, 0)
	return ret[0]''')),
ok('single-via-predict', (L, '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return 0.0
	}
	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]''', '''	var ret [1]float64
	if err := e.Predict(fvals, nEstimators, ret[:]); err != nil {
		return 0.0
	}
	return ret[0]''')),
ok('prepare', (L, '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	e.predictInner''', '''	nEstimators, err := e.prepareNEstimators(nEstimators)
	if err != nil {
		return err
	}

	e.predictInner'''), (L, '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows''', '''	nEstimators, err := e.prepareNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows'''), (L, tail, '''
func (e *Ensemble) prepareNEstimators(requested int) (int, error) {
	n := e.adjustNEstimators(requested)
	if err := e.checkNEstimators(n); err != nil {
		return 0, err
	}
	return n, nil
}
''' + tail)),
ok('size-helper', (L, '''	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
	nEst''', '''	if err := e.checkPredictions(predictions, nRows); err != nil {
		return err
	}
	nEst'''), (L, '''	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
	if ncols''', '''	if err := e.checkPredictions(predictions, nRows); err != nil {
		return err
	}
	if ncols'''), (L, tail, '''
func (e *Ensemble) checkPredictions(predictions []float64, nRows int) error {
	need := nRows * e.NOutputGroups()
	if need > len(predictions) {
		return fmt.Errorf("predictions slice too short (should be at least %d)", need)
	}
	return nil
}
''' + tail)),
ok('pre-add', (L, '''	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for''', '''	wg := sync.WaitGroup{}
	wg.Add(nThreads)
	for i := nThreads; i > 0; i-- {
		go func() {
			defer wg.Done()
			for''')),
ok('range-int', (L, '''	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()
	return nil
}

// NE''', '''	for next := 0; next < nRows; next += BatchSize {
		tasks <- next
	}
	close(tasks)
	wg.Wait()
	return nil
}

// NE''')),
ok('buffered', (L, '	tasks := make(chan int)', '	tasks := make(chan int, nBatches)')),
ok('feeder-goroutine', (L, '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()''', '''	go func() {
		defer close(tasks)
		for i := 0; i < nBatches; i++ {
			tasks <- i * BatchSize
		}
	}()
	wg.Wait()''')),
ok('done-explicit', (L, '''			defer wg.Done()
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
			}
''', '''			for startIndex := range tasks {
				for i := startIndex; i < startIndex+BatchSize && i < nRows; i++ {
					e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
				}
			}
			wg.Done()
''')),
]
LG = 'lgensemble.go'
XG = 'xgensemble.go'
lg = open('/repo/lgensemble.go').read(); xg = open('/repo/xgensemble.go').read()
adj = seg('	if nEstimators > 0 {', '\nfunc (e *lgEnsemble) reset', lg)
lgpi = seg('	for k := 0; k < e.nRawOutputGroups; k++ {\n\t\tpredictions[startIndex+k] = 0.0', '\nfunc (e *lgEnsemble) predictLeaf', lg)
lgli = seg('	nResults :=', '\nfunc (e *lgEnsemble) adjust', lg)
xgpi = seg('	for k := 0; k < e.nRawOutputGroups; k++ {\n\t\tpredictions[startIndex+k] = e.Base', '\nfunc (e *xgEnsemble) predictLeaf', xg)
lgnl = seg('	nleaves := make', '\nfunc (e *lgEnsemble) Name', lg)
cases += [
ok('adjust', (LG, adj, '''	all := e.NEstimators()
	if nEstimators <= 0 || nEstimators > all {
		return all
	}
	return nEstimators
}
'''), (LG, 'import (\n\t"github.com/dmitryikh/leaves/util"\n)\n', '')),
ok('shared-helpers', (LG, lgli, '''	fillLeafIndices(e.Trees, e.nRawOutputGroups, fvals, nEstimators, predictions[startIndex:])
}

func fillLeafIndices(trees []lgTree, nGroups int, fvals []float64, nEstimators int, out []float64) {
	for group := 0; group < nGroups; group++ {
		for est := 0; est < nEstimators; est++ {
			_, leaf := trees[est*nGroups+group].predict(fvals)
			out[group*nEstimators+est] = float64(leaf)
		}
	}
}
'''), (XG, seg('	nResults :=', '\nfunc (e *xgEnsemble) reset', xg), '''	fillLeafIndices(e.Trees, e.nRawOutputGroups, fvals, nEstimators, predictions[startIndex:])
}
''')),
ok('lg-out-slice', (LG, lgpi, '''	nGroups := e.nRawOutputGroups
	out := predictions[startIndex : startIndex+nGroups]
	for k := range out {
		out[k] = 0
	}
	for i := 0; i < nEstimators; i++ {
		trees := e.Trees[i*nGroups : (i+1)*nGroups]
		for k := range trees {
			pred, _ := trees[k].predict(fvals)
			out[k] += pred
		}
	}
	if e.averageOutput {
		for k := range out {
			out[k] *= 1.0 / float64(nEstimators)
		}
	}
}
''')),
ok('lg-div', (LG, '			predictions[startIndex+k] += pred * coef', '			predictions[startIndex+k] += coef * pred'),),
ok('lg-tree-range', (LG, lgpi, '''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = 0.0
	}
	coef := 1.0
	if e.averageOutput {
		coef = 1.0 / float64(nEstimators)
	}
	for id := range e.Trees[:nEstimators*e.nRawOutputGroups] {
		tree := &e.Trees[id]
		pred, _ := tree.predict(fvals)
		predictions[startIndex+id%e.nRawOutputGroups] += pred * coef
	}
}
''')),
ok('xg-sum', (XG, xgpi, '''	nGroups := e.nRawOutputGroups
	for k := 0; k < nGroups; k++ {
		sum := e.BaseScore
		for id := k; id < nEstimators*nGroups; id += nGroups {
			pred, _ := e.Trees[id].predict(fvals)
			sum += e.WeightDrop[id] * pred
		}
		predictions[startIndex+k] = sum
	}
}
''')),
ok('xg-weighted', (XG, '''			ID := i*e.nRawOutputGroups + k
			pred, _ := e.Trees[ID].predict(fvals)
			predictions[startIndex+k] += pred * e.WeightDrop[ID]
''', '''			predictions[startIndex+k] += e.weighted(i*e.nRawOutputGroups+k, fvals)
'''), (XG, 'func (e *xgEnsemble) predictLeaf', '''func (e *xgEnsemble) weighted(id int, fvals []float64) float64 {
	value, _ := e.Trees[id].predict(fvals)
	return value * e.WeightDrop[id]
}

func (e *xgEnsemble) predictLeaf''')),
ok('reset-range', (LG, '''	for j := 0; j < len(fvals); j++ {
		fvals[j] = 0.0
	}''', '''	for j := range fvals {
		fvals[j] = 0.0
	}'''), (XG, '''	for j := 0; j < len(fvals); j++ {
		fvals[j] = math.NaN()
	}''', '''	missing := math.NaN()
	for j := range fvals {
		fvals[j] = missing
	}''')),
ok('nleaves-getn', (LG, lgnl, '''	nEst, nGroups := e.NEstimators(), e.nRawOutputGroups
	nleaves := make([]int, nEst*nGroups)
	for i := range nleaves {
		groupID, estimatorID := i/nEst, i%nEst
		nleaves[i] = e.Trees[estimatorID*nGroups+groupID].nLeaves()
	}
	return nleaves
}
''')),
ok('xlin', ('xgblinear.go', '''		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
		for i := 0; i < e.NumFeature; i++ {
			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
		}
''', '''		bias := float64(e.Weights[e.NumFeature*e.nRawOutputGroups+k])
		sum := e.BaseScore + bias
		for i, pos := 0, k; i < e.NumFeature; i, pos = i+1, pos+e.nRawOutputGroups {
			sum += float64(e.Weights[pos]) * fvals[i]
		}
		predictions[startIndex+k] = sum
''')),
]
T = 'lgtree.go'
t = open('/repo/lgtree.go').read()
num = seg('	if math.IsNaN(fval) && (node.Flags', '\nfunc (t *lgTree) categoricalDecision', t)
cat = seg('	ifval := int32(fval)', '\nfunc (t *lgTree) decision', t)
pred = seg('	idx := uint32(0)\n\tfor {', '\n// validate', t)
val = seg('	for i := range t.nodes {\n\t\tnode := &t.nodes[i]\n\t\tif int64(node.Feature)', '\nfunc (t *lgTree) findInBitset', t)
cases += [
ok('num-switch', (T, num, '''	hasNan, hasZero := node.Flags&missingNan != 0, node.Flags&missingZero != 0
	goLeft := node.Flags&defaultLeft != 0
	switch {
	case math.IsNaN(fval) && hasNan:
		return goLeft
	case math.IsNaN(fval):
		fval = 0
	}
	if hasZero && isZero(fval) {
		return goLeft
	}
	return !(fval > node.Threshold)
}
''')),
ok('is-missing', (T, num, '''	if math.IsNaN(fval) && (node.Flags&missingNan == 0) {
		fval = 0.0
	}
	if node.isMissing(fval) {
		return node.Flags&defaultLeft > 0
	}
	return fval <= node.Threshold
}

func (n *lgNode) has(flag uint8) bool { return n.Flags&flag == flag }

func (n *lgNode) isMissing(fval float64) bool {
	return n.has(missingZero) && isZero(fval) || n.has(missingNan) && math.IsNaN(fval)
}
''')),
ok('cat-order', (T, cat, '''	isNan := math.IsNaN(fval)
	ifval := int32(fval)
	if ifval < 0 || (isNan && node.Flags&missingNan > 0) {
		return false
	}
	if isNan {
		ifval = 0
	}
	category := uint32(ifval)
	switch {
	case node.Flags&catOneHot > 0:
		return int32(node.Threshold) == ifval
	case node.Flags&catSmall > 0:
		return util.FindInBitsetUint32(uint32(node.Threshold), category)
	default:
		return t.findInBitset(uint32(node.Threshold), category)
	}
}
''')),
ok('pred-step', (T, pred, '''	var idx uint32
	for {
		node := t.nodes[idx]
		if t.decision(&node, fvals[node.Feature]) {
			if node.Flags&leftLeaf > 0 {
				return t.leafValues[node.Left], node.Left
			}
			idx = node.Left
			continue
		}
		if node.Flags&rightLeaf > 0 {
			return t.leafValues[node.Right], node.Right
		}
		idx++
	}
}
''')),
ok('pred-next', (T, pred, '''	idx, isLeaf := uint32(0), false
	for !isLeaf {
		idx, isLeaf = t.next(idx, fvals)
	}
	return t.leafValues[idx], idx
}

func (t *lgTree) next(idx uint32, fvals []float64) (uint32, bool) {
	node := &t.nodes[idx]
	if t.decision(node, fvals[node.Feature]) {
		return node.Left, node.Flags&leftLeaf > 0
	}
	if node.Flags&rightLeaf > 0 {
		return node.Right, true
	}
	return idx + 1, false
}
''')),
ok('pred-leafidx', (T, '''func (t *lgTree) predict(fvals []float64) (float64, uint32) {
	if len(t.nodes) == 0 {
		return t.leafValues[0], 0
	}
	idx := uint32(0)
''', '''func (t *lgTree) predict(fvals []float64) (float64, uint32) {
	leaf := t.leafIndex(fvals)
	return t.leafValues[leaf], leaf
}

func (t *lgTree) leafIndex(fvals []float64) uint32 {
	if len(t.nodes) == 0 {
		return 0
	}
	idx := uint32(0)
'''), (T, 'return t.leafValues[node.Left], node.Left', 'return node.Left'), (T, 'return t.leafValues[node.Right], node.Right', 'return node.Right')),
ok('validate-helper', (T, val, '''	for i := range t.nodes {
		if err := t.validateNode(i, nFeatures); err != nil {
			return fmt.Errorf("node %d: %s", i, err.Error())
		}
	}
	return nil
}

func (t *lgTree) validateNode(i int, nFeatures int) error {
	node := &t.nodes[i]
	if int64(node.Feature) >= int64(nFeatures) {
		return fmt.Errorf("wrong feature index %d (number of features is %d)", node.Feature, nFeatures)
	}
	if node.Flags&categorical > 0 && node.Flags&(catOneHot|catSmall) == 0 && int64(node.Threshold)+1 >= int64(len(t.catBoundaries)) {
		return fmt.Errorf("categories not found in the tree")
	}
	nNodes, nLeaves := int64(len(t.nodes)), int64(len(t.leafValues))
	left, right := int64(node.Left), int64(node.Right)
	if node.Flags&leftLeaf > 0 {
		if left >= nLeaves {
			return fmt.Errorf("wrong left leaf index %d", left)
		}
	} else if left <= int64(i) || left >= nNodes {
		return fmt.Errorf("wrong left child index %d", left)
	}
	if node.Flags&rightLeaf > 0 {
		if right >= nLeaves {
			return fmt.Errorf("wrong right leaf index %d", right)
		}
	} else if right != int64(i)+1 || right >= nNodes {
		return fmt.Errorf("wrong right child index %d", right)
	}
	return nil
}
''')),
ok('validate-ok', (T, val, '''	nNodes, nLeaves := int64(len(t.nodes)), int64(len(t.leafValues))
	for i, node := range t.nodes {
		bigCat := node.Flags&categorical != 0 && node.Flags&(catOneHot|catSmall) == 0
		leftOk := int64(node.Left) > int64(i) && int64(node.Left) < nNodes
		if node.Flags&leftLeaf != 0 {
			leftOk = int64(node.Left) < nLeaves
		}
		rightOk := int64(node.Right) == int64(i+1) && int64(node.Right) < nNodes
		if node.Flags&rightLeaf != 0 {
			rightOk = int64(node.Right) < nLeaves
		}
		switch {
		case int64(node.Feature) >= int64(nFeatures):
			return fmt.Errorf("node %d: wrong feature index %d (number of features is %d)", i, node.Feature, nFeatures)
		case bigCat && int64(node.Threshold)+1 >= int64(len(t.catBoundaries)):
			return fmt.Errorf("node %d: categories not found in the tree", i)
		case !leftOk:
			return fmt.Errorf("node %d: wrong left index %d", i, node.Left)
		case !rightOk:
			return fmt.Errorf("node %d: wrong right index %d", i, node.Right)
		}
	}
	return nil
}
''')),
ok('find-inline', (T, '''	return (t.catThresholds[idxS+i1]>>i2)&1 > 0''', '''	word := t.catThresholds[idxS+i1]
	return util.FindInBitsetUint32(word, i2)''')),
]
def bug(name, ids, *edits): return dict(name='mix-' + name, edits=list(edits), bug=ids)
scaleTail = '''	if e.averageOutput {
		for k := range out {
			out[k] *= 1.0 / float64(nEstimators)
		}
	}
}
'''
scaleBody = lambda tail, init='': '''	nGroups := e.nRawOutputGroups
	out := predictions[startIndex : startIndex+nGroups]
	for k := range out {
		out[k] = 0
	}
	for i := 0; i < nEstimators; i++ {
		trees := e.Trees[i*nGroups : (i+1)*nGroups]
		for k := range trees {
			pred, _ := trees[k].predict(fvals)
			out[k] += pred
		}
''' + tail
cases += [
bug('scale-inloop', ['C07'], (LG, lgpi, scaleBody('''		if e.averageOutput {
			for k := range out {
				out[k] *= 1.0 / float64(nEstimators)
			}
		}
	}
}
'''))),
bug('scale-always', ['C07'], (LG, lgpi, scaleBody('''	}
	if nEstimators > 1 {
		for k := range out {
			out[k] *= 1.0 / float64(nEstimators)
		}
	}
}
'''))),
bug('scale-all', ['C07'], (LG, lgpi, scaleBody('''	}
	if e.averageOutput {
		for k := range out {
			out[k] *= 1.0 / float64(e.NEstimators())
		}
	}
}
'''))),
bug('scale-first', ['C07'], (LG, lgpi, scaleBody('''	}
	if e.averageOutput {
		out[0] *= 1.0 / float64(nEstimators)
	}
}
'''))),
bug('flag-walk', ['C09'], (T, pred, '''	idx, isLeaf := uint32(0), false
	for !isLeaf {
		idx, isLeaf = t.next(idx, fvals)
	}
	return t.leafValues[idx], idx
}

func (t *lgTree) next(idx uint32, fvals []float64) (uint32, bool) {
	node := &t.nodes[idx]
	if t.decision(node, fvals[node.Feature]) {
		return node.Left, node.Flags&leftLeaf > 0
	}
	if node.Flags&rightLeaf > 0 {
		return node.Right, node.Flags&leftLeaf > 0
	}
	return idx + 1, false
}
''')),
bug('span-end', ['C03'], (L, denseWork, '''	type span struct{ from, to int }
	tasks := make(chan span)
	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range tasks {
				for i := s.from; i < s.to; i++ {
					e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
				}
			}
		}()
	}
	for from := 0; from < nRows; from += BatchSize {
		to := from + BatchSize
		if to > nRows-1 {
			to = nRows - 1
		}
		tasks <- span{from, to}
	}
	close(tasks)
	wg.Wait()
''')),
bug('feeder-noclose', ['C03'], (L, '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()''', '''	go func() {
		for i := 0; i < nBatches; i++ {
			tasks <- i * BatchSize
			if i == nBatches-1 {
				close(tasks)
				return
			}
		}
	}()
	if nThreads > 1 {
		wg.Wait()
	}''')),
]

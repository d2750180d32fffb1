# changes of the types: shared parts, other containers, other files
L = 'leaves.go'; LG = 'lgensemble.go'; IO = 'lgensemble_io.go'; TR = 'lgtree.go'; XG = 'xgensemble.go'; XI = 'xgensemble_io.go'
XL = 'xgblinear.go'; XLI = 'xgblinear_io.go'; SK = 'skensemble_io.go'; U = 'util/util.go'; M = 'mat/mat_io.go'; MM = 'mat/mat.go'
R = '/repo/'
l = open(R+L).read(); lg = open(R+LG).read(); xg = open(R+XG).read(); io = open(R+IO).read(); tr = open(R+TR).read(); sk = open(R+SK).read(); xi = open(R+XI).read()
def seg(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
def ok(name, *edits): return dict(name='ok-mix8-' + name, edits=list(edits), ok=True)
meta = seg(lg, 'func (e *lgEnsemble) NEstimators()', 'func (e *lgEnsemble) Name()')
adj = seg(lg, 'func (e *lgEnsemble) adjustNEstimators', 'func (e *lgEnsemble) resetFVals')
leafi = seg(lg, 'func (e *lgEnsemble) predictLeafIndicesInner', 'func (e *lgEnsemble) adjustN')
xmeta = seg(xg, 'func (e *xgEnsemble) NEstimators()', 'func (e *xgEnsemble) Name()')
xadj = seg(xg, 'func (e *xgEnsemble) adjustNEstimators', 'func (e *xgEnsemble) predictInner')
xleafi = seg(xg, 'func (e *xgEnsemble) predictLeafIndicesInner', 'func (e *xgEnsemble) resetFVals')
walk = seg(io, '	origNodeIdxStack := make([]uint32, 0, numNodes)', '// LGEnsembleFromReader reads')
xwalk = seg(xi, '	origNodeIdxStack := make([]uint32, 0, numNodes)', '// XGEnsembleFromReader reads')
swalk = seg(sk, '	origNodeIdxStack := make([]uint32, 0, numNodes)', '// SKEnsembleFromReader reads')
base = 'type treeEnsemble struct {\n	Trees            []lgTree\n	MaxFeatureIdx    int\n	nRawOutputGroups int\n}\n\n'
shared = [
  (LG, '// lgEnsemble is LightGBM model (ensemble of trees)\ntype lgEnsemble struct {\n	Trees            []lgTree\n	MaxFeatureIdx    int\n	nRawOutputGroups int\n', base + meta.replace('*lgEnsemble', '*treeEnsemble') + '// lgEnsemble is LightGBM model (ensemble of trees)\ntype lgEnsemble struct {\n	treeEnsemble\n'),
  (LG, meta + 'func (e *lgEnsemble) Name()', 'func (e *lgEnsemble) Name()'),
  (XG, '	Trees            []lgTree\n	MaxFeatureIdx    int\n	nRawOutputGroups int\n	BaseScore', '	treeEnsemble\n	BaseScore'),
  (XG, xmeta, ''),
]
cases = [
ok('embedded', *shared),
ok('embedded-adjust', *(shared + [(LG, adj, adj.replace('*lgEnsemble', '*treeEnsemble')), (XG, xadj, ''), (XG, '\n	"github.com/dmitryikh/leaves/util"\n', '')])),
ok('embedded-all', *(shared + [(LG, adj, adj.replace('*lgEnsemble', '*treeEnsemble')), (LG, leafi, leafi.replace('*lgEnsemble', '*treeEnsemble')), (XG, xadj, ''), (XG, xleafi, ''), (XG, '\n	"github.com/dmitryikh/leaves/util"\n', '')])),
ok('tree-pointers', (LG, '	Trees            []lgTree\n', '	Trees            []*lgTree\n'), (IO, '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := lgTree', '	e.Trees = make([]*lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := lgTree'), (IO, '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := unm', '	e.Trees = make([]*lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := unm'), (IO, '		e.Trees = append(e.Trees, tree)\n', '		e.Trees = append(e.Trees, &tree)\n'), (IO, '		e.Trees = append(e.Trees, tree)\n', '		e.Trees = append(e.Trees, &tree)\n'), (SK, 'make([]lgTree, 0, gbdt', 'make([]*lgTree, 0, gbdt'), (SK, '			e.Trees = append(e.Trees, tree)\n', '			e.Trees = append(e.Trees, &tree)\n')),
ok('helper-walk', (IO, walk, '''	root, err := createNode(0)
	if err != nil {
		return t, err
	}
	t.nodes = append(make([]lgNode, 0, numNodes), root)
	err = t.addChildren(numNodes, func(orig uint32) int { return int(leftChilds[orig]) }, func(orig uint32) int { return int(rightChilds[orig]) },
		func(orig int) (lgNode, error) { return createNode(int32(orig)) })
	return t, err
}

// addChildren adds the children of the root, of its children and so on: the right child follows its parent
func (t *lgTree) addChildren(numNodes int, left func(uint32) int, right func(uint32) int, createNode func(int) (lgNode, error)) error {
	origNodeIdxStack := make([]uint32, 0, numNodes)
	convNodeIdxStack := make([]uint32, 0, numNodes)
	visited := make([]bool, numNodes)
	origNodeIdxStack = append(origNodeIdxStack, 0)
	convNodeIdxStack = append(convNodeIdxStack, 0)
	for len(origNodeIdxStack) > 0 {
		convIdx := convNodeIdxStack[len(convNodeIdxStack)-1]
		orig := origNodeIdxStack[len(origNodeIdxStack)-1]
		if t.nodes[convIdx].Flags&rightLeaf == 0 {
			origIdx := right(orig)
			if !visited[origIdx] {
				node, err := createNode(origIdx)
				if err != nil {
					return err
				}
				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
				convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))
				origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
				visited[origIdx] = true
				t.nodes[convIdx].Right = uint32(convNewIdx)
				continue
			}
		}
		if t.nodes[convIdx].Flags&leftLeaf == 0 {
			origIdx := left(orig)
			if !visited[origIdx] {
				node, err := createNode(origIdx)
				if err != nil {
					return err
				}
				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
				convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))
				origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
				visited[origIdx] = true
				t.nodes[convIdx].Left = uint32(convNewIdx)
				continue
			}
		}
		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
	}
	return nil
}

''')),
ok('row-type', (L, '''		for i := 0; i < nRows; i++ {
			fvals := vals[i*ncols : (i+1)*ncols]
''', '''		m := denseRows{vals, ncols}
		for i := 0; i < nRows; i++ {
			fvals := m.row(i)
'''), (L, 'e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEst', 'e.predictInnerAndTransform(denseRows{vals, ncols}.row(i), nEst'), (L, '// NEstimators returns number of est', '''type denseRows struct {
	vals  []float64
	ncols int
}

func (m denseRows) row(i int) []float64 {
	return m.vals[i*m.ncols : (i+1)*m.ncols]
}

// NEstimators returns number of est''')),
ok('pool-type', (L, seg(l, '	tasks := make(chan int)\n\n	wg := sync.WaitGroup{}\n	for i := 0; i < nThreads; i++ {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			fvals', '}\n\nfunc (e *Ensemble) predictCSRInner'), '''	runBatches(nThreads, nBatches, func() func(int) {
		fvals := make([]float64, e.NFeatures())
		e.resetFVals(fvals)
		return func(startIndex int) {
			endIndex := startIndex + BatchSize
			if endIndex > nRows {
				endIndex = nRows
			}
			e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals)
		}
	})
	return nil
'''), (L, 'func (e *Ensemble) predictCSRInner(', '''// runBatches handles every batch by one of the workers
func runBatches(nThreads int, nBatches int, newWorker func() func(startIndex int)) {
	tasks := make(chan int)
	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			work := newWorker()
			for startIndex := range tasks {
				work(startIndex)
			}
		}()
	}
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()
}

func (e *Ensemble) predictCSRInner(''')),
ok('flags-type', (TR, 'const (\n	categorical = 1 << 0\n', 'const (\n	// bits of lgNode.Flags\n	categorical = 1 << iota\n').__class__((TR, '	categorical = 1 << 0\n	defaultLeft = 1 << 1\n	leftLeaf    = 1 << 2\n	rightLeaf   = 1 << 3\n	missingZero = 1 << 4\n	missingNan  = 1 << 5\n	catOneHot   = 1 << 6\n	catSmall    = 1 << 7\n', '	categorical = 1 << iota\n	defaultLeft\n	leftLeaf\n	rightLeaf\n	missingZero\n	missingNan\n	catOneHot\n	catSmall\n'))),
ok('flags-hex', (TR, '	categorical = 1 << 0\n	defaultLeft = 1 << 1\n', '	categorical = 0x01\n	defaultLeft = 0x02\n'), (TR, 'node.Flags&missingNan == 0)', 'node.Flags&missingNan != missingNan)')),
ok('add-child', (IO, walk, walk.replace('''				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
				convNodeIdxStack''', '''				convNewIdx := len(t.nodes)
				t.nodes = append(t.nodes, node)
				convNodeIdxStack'''))),
ok('xg-push', (XI, xwalk, xwalk.replace('	for len(origNodeIdxStack) > 0 {', '''	push := func(origIdx int32) (uint32, error) {
		node, err := createNode(&origTree.Nodes[origIdx])
		if err != nil {
			return 0, err
		}
		newIdx := uint32(len(t.nodes))
		t.nodes = append(t.nodes, node)
		convNodeIdxStack = append(convNodeIdxStack, newIdx)
		origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
		visited[origIdx] = true
		return newIdx, nil
	}
	for len(origNodeIdxStack) > 0 {''', 1).replace('''				node, err := createNode(&origTree.Nodes[origIdx])
				if err != nil {
					return t, err
				}
				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
				convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))
				origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
				visited[origIdx] = true
				t.nodes[convIdx].Right = uint32(convNewIdx)
				continue
''', '''				newIdx, err := push(origIdx)
				if err != nil {
					return t, err
				}
				t.nodes[convIdx].Right = newIdx
				continue
''').replace('''				node, err := createNode(&origTree.Nodes[origIdx])
				if err != nil {
					return t, err
				}
				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
				convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))
				origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
				visited[origIdx] = true
				t.nodes[convIdx].Left = uint32(convNewIdx)
				continue
''', '''				newIdx, err := push(origIdx)
				if err != nil {
					return t, err
				}
				t.nodes[convIdx].Left = newIdx
				continue
'''))),
ok('sk-top', (SK, swalk, swalk.replace('''		convIdx := convNodeIdxStack[len(convNodeIdxStack)-1]
''', '''		top := len(convNodeIdxStack) - 1
		convIdx := convNodeIdxStack[top]
		orig := &tree.Tree.Nodes[origNodeIdxStack[top]]
''').replace('tree.Tree.Nodes[origNodeIdxStack[len(origNodeIdxStack)-1]].RightChild', 'orig.RightChild').replace('tree.Tree.Nodes[origNodeIdxStack[len(origNodeIdxStack)-1]].LeftChild', 'orig.LeftChild').replace('''		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
''', '''		origNodeIdxStack, convNodeIdxStack = origNodeIdxStack[:top], convNodeIdxStack[:top]
'''))),
]
# all elements point to one tree
_tp = [c for c in cases if c['name'] == 'ok-mix8-tree-pointers'][0]['edits']
cases.append(dict(name='mix8-same-tree', bug=['C11'], edits=[(f, o, n.replace('	for i := 0; i < nTrees; i++ {\n		tree, err := lgTree', '	var tree lgTree\n	for i := 0; i < nTrees; i++ {\n		tree, err = lgTree')) for f, o, n in _tp]))

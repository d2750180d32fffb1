# larger rewrites of the loaders
LGI = 'lgensemble_io.go'; XGI = 'xgensemble_io.go'; XGL = 'xgblinear_io.go'
g = open('/repo/lgensemble_io.go').read(); x = open('/repo/xgensemble_io.go').read(); xl = open('/repo/xgblinear_io.go').read()
def seg(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
def ok(name, *edits): return dict(name='ok-mix2-' + name, edits=list(edits), ok=True)
numClosure = seg(g, '	createNumericalNode := func(idx int32)', '	createCategoricalNode := func(idx int32)')
children = '''		if leftChilds[idx] < 0 {
			node.Flags |= leftLeaf
			node.Left = uint32(^leftChilds[idx])
		}
		if rightChilds[idx] < 0 {
			node.Flags |= rightLeaf
			node.Right = uint32(^rightChilds[idx])
		}
'''
assert g.count(children) == 2
lgStacks = seg(g, '	origNodeIdxStack := make', '	return t, nil\n}\n\n// LGEnsembleFromReader')
lists = seg(g, '	leftChilds, err := params', '	if len(leftChilds) != numNodes')
conv = seg(g, '	missingTypeOrig := ', '\nvar stringToMissingType')
objp = seg(g, '	tokens := strings.Split(objective, " ")', '\nfunc convertMissingType')
ver = seg(g, '	if err := params.Compare("version", "v2")', '	nClasses, err := params.ToInt("num_class")')
counts = seg(g, '	if nClasses != nTreePerIteration {', '	e.nRawOutputGroups = nClasses')
trans = seg(g, '	var transform transformation.Transform', '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := lgTree')
trees = seg(g, '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := lgTree', '	return &Ensemble{e, transform}, nil')
unNode = seg(g, '	// dirty way to check', '\n// unmarshalTree unmarshal')
jsKids = '''		if value, ok := nodeJSON.LeftChild.(float64); ok {
			node.Flags |= leftLeaf
			node.Left = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, value)
		}
		if value, ok := nodeJSON.RightChild.(float64); ok {
			node.Flags |= rightLeaf
			node.Right = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, value)
		}
'''
assert g.count(jsKids) == 2
jsLoop = seg(g, '	for len(stack) > 0 {\n		stackData', '	if len(t.leafValues) != treeJSON.NumLeaves')
jsCreate = seg(g, '	createNode := func(nodeJSON *lgNodeJSON)', '	type StackData struct')
jsTrees = seg(g, '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := unmarshal', '	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil')
jsBits = seg(g, '			thresholdValues := make([]int', '			if len(bitset) == 1')
toFn = '\n// LGEnsembleFromReader reads'
xgStacks = seg(x, '	origNodeIdxStack := make', '	return t, nil\n}\n\n// XGEnsembleFromReader')
xgCreate = seg(x, '	createNode := func(origNode', '	origNodeIdxStack := make')
xgW = seg(x, '	e.WeightDrop = make([]float64', '	// TODO: below')
xgPat = seg(x, '	{\n		// Check that TreeInfo', '	var transform')
xgT = seg(x, '	var transform transformation.Transform', '	nTrees := origModel')
xlT = seg(xl, '	var transform transformation.Transform', '	return &Ensemble{e, transform}, nil')
xgTrees = seg(x, '	// reading particular trees', '	return &Ensemble{e, transform}, nil')
xgName = seg(x, '	if header.NameGbm == "gbtree" {', '	if header.Param.NumFeatures == 0')
cases = [
ok('set-children', (LGI, children, '		setLeaves(&node, leftChilds[idx], rightChilds[idx])\n'), (LGI, children, '		setLeaves(&node, leftChilds[idx], rightChilds[idx])\n'), (LGI, toFn, '''
// setLeaves marks the children that are leaves (negative indices)
func setLeaves(node *lgNode, left, right int32) {
	if left < 0 {
		node.Flags |= leftLeaf
		node.Left = uint32(^left)
	}
	if right < 0 {
		node.Flags |= rightLeaf
		node.Right = uint32(-right - 1)
	}
}
''' + toFn)),
ok('lg-push-closure', (LGI, lgStacks, '''	origStack := make([]int32, 0, numNodes)
	convStack := make([]uint32, 0, numNodes)
	visited := make([]bool, numNodes)
	t.nodes = make([]lgNode, 0, numNodes)
	push := func(orig int32) (uint32, error) {
		node, err := createNode(orig)
		if err != nil {
			return 0, err
		}
		pos := uint32(len(t.nodes))
		t.nodes = append(t.nodes, node)
		origStack = append(origStack, orig)
		convStack = append(convStack, pos)
		visited[orig] = true
		return pos, nil
	}
	if _, err := push(0); err != nil {
		return t, err
	}
	for len(origStack) > 0 {
		last := len(origStack) - 1
		conv, orig := convStack[last], origStack[last]
		if t.nodes[conv].Flags&rightLeaf == 0 && !visited[rightChilds[orig]] {
			pos, err := push(rightChilds[orig])
			if err != nil {
				return t, err
			}
			t.nodes[conv].Right = pos
			continue
		}
		if t.nodes[conv].Flags&leftLeaf == 0 && !visited[leftChilds[orig]] {
			pos, err := push(leftChilds[orig])
			if err != nil {
				return t, err
			}
			t.nodes[conv].Left = pos
			continue
		}
		origStack = origStack[:last]
		convStack = convStack[:last]
	}
''')),
ok('lg-one-stack', (LGI, lgStacks, '''	type frame struct {
		orig, conv uint32
	}
	stack := make([]frame, 0, numNodes)
	visited := make([]bool, numNodes)
	t.nodes = make([]lgNode, 0, numNodes)
	node, err := createNode(0)
	if err != nil {
		return t, err
	}
	t.nodes = append(t.nodes, node)
	stack = append(stack, frame{0, 0})
	for len(stack) > 0 {
		top := stack[len(stack)-1]
		if t.nodes[top.conv].Flags&rightLeaf == 0 {
			child := rightChilds[top.orig]
			if !visited[child] {
				node, err := createNode(child)
				if err != nil {
					return t, err
				}
				pos := uint32(len(t.nodes))
				t.nodes = append(t.nodes, node)
				stack = append(stack, frame{uint32(child), pos})
				visited[child] = true
				t.nodes[top.conv].Right = pos
				continue
			}
		}
		if t.nodes[top.conv].Flags&leftLeaf == 0 {
			child := leftChilds[top.orig]
			if !visited[child] {
				node, err := createNode(child)
				if err != nil {
					return t, err
				}
				pos := uint32(len(t.nodes))
				t.nodes = append(t.nodes, node)
				stack = append(stack, frame{uint32(child), pos})
				visited[child] = true
				t.nodes[top.conv].Left = pos
				continue
			}
		}
		stack = stack[:len(stack)-1]
	}
''')),
ok('lg-recursive-free-order', (LGI, lists, '''	thresholds, err := params.ToFloat64Slice("threshold")
	if err != nil {
		return t, err
	}
	splitFeatures, err := params.ToUint32Slice("split_feature")
	if err != nil {
		return t, err
	}
	decisionTypes, err := params.ToUint32Slice("decision_type")
	if err != nil {
		return t, err
	}
	leftChilds, err := params.ToInt32Slice("left_child")
	if err != nil {
		return t, err
	}
	rightChilds, err := params.ToInt32Slice("right_child")
	if err != nil {
		return t, err
	}

''')),
ok('lg-lists-struct', (LGI, lists, '''	type treeArrays struct {
		left, right         []int32
		decisions, features []uint32
		thresholds          []float64
	}
	readTreeArrays := func() (a treeArrays, err error) {
		if a.left, err = params.ToInt32Slice("left_child"); err != nil {
			return a, err
		}
		if a.right, err = params.ToInt32Slice("right_child"); err != nil {
			return a, err
		}
		if a.decisions, err = params.ToUint32Slice("decision_type"); err != nil {
			return a, err
		}
		if a.features, err = params.ToUint32Slice("split_feature"); err != nil {
			return a, err
		}
		if a.thresholds, err = params.ToFloat64Slice("threshold"); err != nil {
			return a, err
		}
		return a, nil
	}
	arrays, err := readTreeArrays()
	if err != nil {
		return t, err
	}
	leftChilds, rightChilds := arrays.left, arrays.right
	decisionTypes, splitFeatures, thresholds := arrays.decisions, arrays.features, arrays.thresholds

''')),
ok('conv-switch', (LGI, conv, '''	switch orig := (decisionType >> 2) & 3; orig {
	case 0:
		return 0, nil
	case 1:
		return missingZero, nil
	case 2:
		return missingNan, nil
	default:
		return 0, fmt.Errorf("unknown missing type = %d", orig)
	}
}
''')),
ok('conv-table', (LGI, conv, '''	types := [...]uint8{0, missingZero, missingNan}
	orig := (decisionType >> 2) & 3
	if orig >= uint32(len(types)) {
		return 0, fmt.Errorf("unknown missing type = %d", orig)
	}
	return types[orig], nil
}
''')),
ok('obj-cut', (LGI, objp, '''	errorMsg := fmt.Errorf("unexpected objective field: '%s'", objective)
	tokens := strings.Split(objective, " ")
	if len(tokens) != 2 {
		return lgObjective{}, errorMsg
	}
	param := strings.Split(tokens[1], ":")
	if len(param) != 2 {
		return lgObjective{}, errorMsg
	}
	value, err := strconv.Atoi(param[1])
	if err != nil {
		return lgObjective{}, errorMsg
	}
	return lgObjective{name: tokens[0], param: param[0], value: value}, nil
}
''')),
ok('ver-flat', (LGI, ver, '''	err = params.Compare("version", "v2")
	if err != nil {
		err = params.Compare("version", "v3")
	}
	if err != nil {
		return nil, err
	}
''')),
ok('counts-switch', (LGI, counts, '''	if err := checkClasses(nClasses, nTreePerIteration); err != nil {
		return nil, err
	}
'''), (LGI, toFn, '''
func checkClasses(nClasses, nTrees int) error {
	switch {
	case nClasses != nTrees:
		return fmt.Errorf("meet case when num_class (%d) != num_tree_per_iteration (%d)", nClasses, nTrees)
	case nClasses <= 0:
		return fmt.Errorf("num_class (%d) should be > 0", nClasses)
	}
	return nil
}
''' + toFn)),
ok('trans-fn', (LGI, trans, '''	var transform transformation.Transform = &transformation.TransformRaw{e.nRawOutputGroups}
	if loadTransformation && !e.averageOutput {
		objective, err := params.ToString("objective")
		if err != nil {
			return nil, err
		}
		transform, err = lgTransform(objective, e.nRawOutputGroups)
		if err != nil {
			return nil, err
		}
	}

'''), (LGI, toFn, '''
func lgTransform(objective string, nGroups int) (transformation.Transform, error) {
	unknown := fmt.Errorf("unknown transformation function '%s'", objective)
	isRegression := strings.HasPrefix(objective, "regression")
	if isRegression {
		if strings.HasSuffix(objective, " sqrt") {
			return nil, unknown
		}
		return &transformation.TransformRaw{nGroups}, nil
	}
	switch objective {
	case "poisson", "gamma", "tweedie":
		if nGroups != 1 {
			return nil, fmt.Errorf("got objective '%s' with %d output groups", objective, nGroups)
		}
		return &transformation.TransformExponential{}, nil
	}
	parsed, err := lgObjectiveParse(objective)
	if err != nil {
		return nil, err
	}
	switch {
	case parsed.name == "binary" && parsed.param == "sigmoid":
		if parsed.value != 1 {
			return nil, fmt.Errorf("got sigmoid with value != 1 (got %d)", parsed.value)
		}
		if nGroups != 1 {
			return nil, fmt.Errorf("got binary objective with %d output groups", nGroups)
		}
		return &transformation.TransformLogistic{}, nil
	case parsed.name == "multiclass" && parsed.param == "num_class":
		if parsed.value != nGroups {
			return nil, fmt.Errorf("got multiclass num_class != %d (got %d)", nGroups, parsed.value)
		}
		return &transformation.TransformSoftmax{nGroups}, nil
	}
	return nil, unknown
}
''' + toFn)),
ok('trees-helper', (LGI, trees, '''	e.Trees = make([]lgTree, nTrees)
	for i := range e.Trees {
		tree, err := readValidTree(reader, e.NFeatures())
		if err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
		e.Trees[i] = tree
	}
'''), (LGI, toFn, '''
func readValidTree(reader *bufio.Reader, nFeatures int) (lgTree, error) {
	tree, err := lgTreeFromReader(reader)
	if err != nil {
		return lgTree{}, err
	}
	if err = tree.validate(nFeatures); err != nil {
		return lgTree{}, err
	}
	return tree, nil
}
''' + toFn)),
ok('unnode-leaf', (LGI, unNode, '''	if node.MissingType == "" {
		return unmarshalLeaf(raw)
	}
	left, err := unmarshalNode(node.LeftChildRaw)
	if err != nil {
		return nil, err
	}
	right, err := unmarshalNode(node.RightChildRaw)
	if err != nil {
		return nil, err
	}
	node.LeftChild, node.RightChild = left, right
	return node, nil
}

func unmarshalLeaf(raw []byte) (interface{}, error) {
	data := map[string]interface{}{}
	if err := json.Unmarshal(raw, &data); err != nil {
		return nil, err
	}
	if value, ok := data["leaf_value"].(float64); ok {
		return value, nil
	}
	return nil, fmt.Errorf("unknown tree")
}
''')),
ok('js-kids', (LGI, '	createNumericalNode := func(nodeJSON', '''	addLeaf := func(value float64) uint32 {
		t.leafValues = append(t.leafValues, value)
		return uint32(len(t.leafValues) - 1)
	}
	setLeaves := func(node *lgNode, nodeJSON *lgNodeJSON) {
		if value, ok := nodeJSON.LeftChild.(float64); ok {
			node.Flags |= leftLeaf
			node.Left = addLeaf(value)
		}
		if value, ok := nodeJSON.RightChild.(float64); ok {
			node.Flags |= rightLeaf
			node.Right = addLeaf(value)
		}
	}

	createNumericalNode := func(nodeJSON'''), (LGI, jsKids, '		setLeaves(&node, nodeJSON)\n'), (LGI, jsKids, '		setLeaves(&node, nodeJSON)\n')),
ok('js-loop', (LGI, jsLoop, '''	for len(stack) > 0 {
		last := len(stack) - 1
		item := stack[last]
		stack = stack[:last]
		node, err := createNode(item.nodeJSON)
		if err != nil {
			return t, err
		}
		pos := len(t.nodes)
		if item.parentPtr != nil {
			*item.parentPtr = uint32(pos)
		}
		t.nodes = append(t.nodes, node)
		switch left := item.nodeJSON.LeftChild.(type) {
		case *lgNodeJSON:
			stack = append(stack, StackData{&t.nodes[pos].Left, left})
		case float64:
		default:
			return t, fmt.Errorf("unexpected left child type %T", left)
		}
		switch right := item.nodeJSON.RightChild.(type) {
		case *lgNodeJSON:
			stack = append(stack, StackData{&t.nodes[pos].Right, right})
		case float64:
		default:
			return t, fmt.Errorf("unexpected right child type %T", right)
		}
	}
''')),
ok('js-create', (LGI, jsCreate, '''	createNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {
		switch nodeJSON.DecisionType {
		case "<=":
			return createNumericalNode(nodeJSON)
		case "==":
			return createCategoricalNode(nodeJSON)
		}
		return lgNode{}, fmt.Errorf("unknown decision type '%s'", nodeJSON.DecisionType)
	}

''')),
ok('js-trees', (LGI, jsTrees, '''	nFeatures := e.NFeatures()
	for i, raw := range data.Trees {
		tree, err := unmarshalTree(raw)
		if err == nil {
			err = tree.validate(nFeatures)
		}
		if err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
		e.Trees = append(e.Trees, tree)
	}
''')),
ok('js-bits', (LGI, jsBits, '''			categories := make([]int, 0, len(tokens))
			for _, token := range tokens {
				category, err := strconv.Atoi(token)
				if err != nil {
					return node, fmt.Errorf("can't convert %s: %s", token, err.Error())
				}
				categories = append(categories, category)
			}

			bitset := util.ConstructBitset(categories)
''')),
ok('file-helper', (LGI, seg(g, '	reader, err := os.Open(filename)', '\n// unmarshalNode rec'), '''	file, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return LGEnsembleFromReader(bufio.NewReader(file), loadTransformation)
}
''')),
ok('xg-leafclosure', (XGI, xgCreate, '''	addLeaf := func(child *xgbin.Node) uint32 {
		t.leafValues = append(t.leafValues, float64(child.Info))
		return uint32(len(t.leafValues) - 1)
	}
	createNode := func(origNode *xgbin.Node) (lgNode, error) {
		if origNode.CLeft < 0 {
			return lgNode{}, fmt.Errorf("logic error: got origNode.CLeft < 0")
		}
		if origNode.CRight < 0 {
			return lgNode{}, fmt.Errorf("logic error: got origNode.CRight < 0")
		}
		defaultType := uint8(0)
		if xgDefaultLeft(origNode) {
			defaultType = defaultLeft
		}
		node := numericalNode(xgSplitIndex(origNode), missingNan, float64(origNode.Info), defaultType)
		if left := &origTree.Nodes[origNode.CLeft]; xgIsLeaf(left) {
			node.Flags |= leftLeaf
			node.Left = addLeaf(left)
		}
		if right := &origTree.Nodes[origNode.CRight]; xgIsLeaf(right) {
			node.Flags |= rightLeaf
			node.Right = addLeaf(right)
		}
		return node, nil
	}

''')),
ok('xg-onestack', (XGI, xgStacks, '''	type frame struct {
		orig int32
		conv uint32
	}
	var stack []frame
	visited := make([]bool, numNodes)
	t.nodes = make([]lgNode, 0, numNodes)
	visit := func(orig int32) (uint32, error) {
		node, err := createNode(&origTree.Nodes[orig])
		if err != nil {
			return 0, err
		}
		conv := uint32(len(t.nodes))
		t.nodes = append(t.nodes, node)
		stack = append(stack, frame{orig, conv})
		visited[orig] = true
		return conv, nil
	}
	if _, err := visit(0); err != nil {
		return t, err
	}
	for len(stack) > 0 {
		top := stack[len(stack)-1]
		node := &origTree.Nodes[top.orig]
		flags := t.nodes[top.conv].Flags
		switch {
		case flags&rightLeaf == 0 && !visited[node.CRight]:
			conv, err := visit(node.CRight)
			if err != nil {
				return t, err
			}
			t.nodes[top.conv].Right = conv
		case flags&leftLeaf == 0 && !visited[node.CLeft]:
			conv, err := visit(node.CLeft)
			if err != nil {
				return t, err
			}
			t.nodes[top.conv].Left = conv
		default:
			stack = stack[:len(stack)-1]
		}
	}
''')),
ok('xg-weights-switch', (XGI, xgW, '''	nWeights := int(origModel.Param.NumTrees)
	e.WeightDrop = make([]float64, nWeights)
	switch header.NameGbm {
	case "dart":
		weights, err := xgbin.ReadFloat32Slice(reader)
		if err != nil {
			return nil, err
		}
		if len(weights) != nWeights {
			return nil, fmt.Errorf("unexpected len(weightDrop) for 'dart' (got: %d, expected: %d)", len(weights), nWeights)
		}
		for i := range weights {
			e.WeightDrop[i] = float64(weights[i])
		}
	case "gbtree":
		for i := range e.WeightDrop {
			e.WeightDrop[i] = 1.0
		}
	default:
		return nil, fmt.Errorf("unsupported model type (got: %s)", header.NameGbm)
	}
''')),
ok('xg-weights-fn', (XGI, xgW, '''	e.WeightDrop, err = readTreeWeights(reader, header.NameGbm, int(origModel.Param.NumTrees))
	if err != nil {
		return nil, err
	}
'''), (XGI, '\n// XGEnsembleFromReader reads', '''
func readTreeWeights(reader *bufio.Reader, booster string, nTrees int) ([]float64, error) {
	result := make([]float64, nTrees)
	if booster != "dart" {
		for i := range result {
			result[i] = 1.0
		}
		return result, nil
	}
	weights, err := xgbin.ReadFloat32Slice(reader)
	if err != nil {
		return nil, err
	}
	if len(weights) != nTrees {
		return nil, fmt.Errorf("unexpected len(weightDrop) for 'dart' (got: %d, expected: %d)", len(weights), nTrees)
	}
	for i, w := range weights {
		result[i] = float64(w)
	}
	return result, nil
}

// XGEnsembleFromReader reads''')),
ok('xg-pattern-mod', (XGI, xgPat, '''	// Check that TreeInfo has expected pattern (0 1 2 0 1 2...)
	for i, group := range origModel.TreeInfo {
		if int(group) != i%e.nRawOutputGroups {
			return nil, fmt.Errorf("TreeInfo expected to have pattern [0 1 2 0 1 2...] (got %v)", origModel.TreeInfo)
		}
	}

''')),
ok('xg-trans-shared', (XGI, xgT, '''	transform, err := xgTransform(header.NameObj, e.nRawOutputGroups, loadTransformation)
	if err != nil {
		return nil, err
	}

'''), (XGL, xlT, '''	transform, err := xgTransform(header.NameObj, e.nRawOutputGroups, loadTransformation)
	if err != nil {
		return nil, err
	}
'''), (XGI, '\n// XGEnsembleFromReader reads', '''
func xgTransform(objective string, nGroups int, load bool) (transformation.Transform, error) {
	if !load {
		return &transformation.TransformRaw{nGroups}, nil
	}
	if objective != "binary:logistic" {
		return nil, fmt.Errorf("unknown transformation function '%s'", objective)
	}
	if nGroups != 1 {
		return nil, fmt.Errorf("got objective '%s' with %d output groups", objective, nGroups)
	}
	return &transformation.TransformLogistic{}, nil
}

// XGEnsembleFromReader reads'''), (XGL, '	"github.com/dmitryikh/leaves/transformation"\n', '')),
ok('xg-trees-range', (XGI, xgTrees, '''	e.Trees = make([]lgTree, 0, len(origModel.Trees))
	for i, origTree := range origModel.Trees {
		tree, err := xgTreeFromTreeModel(origTree, header.Param.NumFeatures)
		if err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
		if err := tree.validate(e.NFeatures()); err != nil {
			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
		}
		e.Trees = append(e.Trees, tree)
	}
''')),
ok('xg-name-map', (XGI, xgName, '''	switch header.NameGbm {
	case "gbtree", "dart":
		e.name = "xgboost." + header.NameGbm
	default:
		return nil, fmt.Errorf("only 'gbtree' or 'dart' is supported (got %s)", header.NameGbm)
	}

''')),
ok('xg-literal', (XGI, '''	e := &xgEnsemble{}

	// reading header info
''', ''), (XGI, xgName, '''	if header.NameGbm != "gbtree" && header.NameGbm != "dart" {
		return nil, fmt.Errorf("only 'gbtree' or 'dart' is supported (got %s)", header.NameGbm)
	}
	e := &xgEnsemble{
		name:      "xgboost." + header.NameGbm,
		BaseScore: float64(header.Param.BaseScore),
	}

'''), (XGI, '	e.BaseScore = float64(header.Param.BaseScore)\n', '')),
ok('xl-literal', (XGL, '''	e := &xgLinear{}

''', ''), (XGL, '	e.BaseScore = float64(header.Param.BaseScore)\n\n', ''), (XGL, '''	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
	e.NumFeature = int(gbLinearModel.Param.NumFeature)
	e.Weights = gbLinearModel.Weights
''', '''	e := &xgLinear{
		NumFeature:       int(gbLinearModel.Param.NumFeature),
		nRawOutputGroups: int(gbLinearModel.Param.NumOutputGroup),
		BaseScore:        float64(header.Param.BaseScore),
		Weights:          gbLinearModel.Weights,
	}
''')),
ok('xg-checks-order', (XGI, '''	nTrees := origModel.Param.NumTrees
	if nTrees == 0 {
		return nil, fmt.Errorf("no trees in model")
	}
''', '	nTrees := origModel.Param.NumTrees\n'), (XGI, '	e.WeightDrop = make(', '''	if origModel.Param.NumTrees == 0 {
		return nil, fmt.Errorf("no trees in model")
	}
	e.WeightDrop = make(''')),
ok('lg-cat-helper', (LGI, seg(g, '		catIdx := uint32(thresholds[idx])\n', '		node = categoricalNode(splitFeatures[idx], missingType'), '''		set := uint32(thresholds[idx])
		words := catThresholds[catBoundaries[set]:catBoundaries[set+1]]
		var catIdx uint32
		var catType uint8
		switch nBits := util.NumberOfSetBits(words); {
		case nBits == 0:
			return node, fmt.Errorf("no bits set")
		case nBits == 1:
			bit, err := util.FirstNonZeroBit(words)
			if err != nil {
				return node, fmt.Errorf("not reached error")
			}
			catIdx, catType = bit, catOneHot
		case len(words) == 1:
			catIdx, catType = words[0], catSmall
		default:
			catIdx = uint32(len(t.catBoundaries) - 1)
			t.catThresholds = append(t.catThresholds, words...)
			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
		}

''')),
ok('lg-node-methods', (LGI, numClosure, '''	createNumericalNode := func(idx int32) (lgNode, error) {
		missingType, err := convertMissingType(decisionTypes[idx])
		if err != nil {
			return lgNode{}, err
		}
		return lgNumericalNode(splitFeatures[idx], missingType, thresholds[idx], decisionTypes[idx], leftChilds[idx], rightChilds[idx]), nil
	}

'''), (LGI, toFn, '''
func lgNumericalNode(feature uint32, missingType uint8, threshold float64, decisionType uint32, left, right int32) lgNode {
	var defaultType uint8
	if (decisionType>>1)&1 != 0 {
		defaultType = defaultLeft
	}
	node := numericalNode(feature, missingType, threshold, defaultType)
	if left < 0 {
		node.Flags |= leftLeaf
		node.Left = uint32(^left)
	}
	if right < 0 {
		node.Flags |= rightLeaf
		node.Right = uint32(^right)
	}
	return node
}
''' + toFn)),
ok('lg-early', (LGI, '''	if numLeaves < 1 {
		return t, fmt.Errorf("num_leaves < 1")
	}
	numNodes := numLeaves - 1

	leafValues, err := params.ToFloat64Slice("leaf_value")
	if err != nil {
		return t, err
	}
	if len(leafValues) != numLeaves {
		return t, fmt.Errorf("unexpected number of leaf values (%d, num_leaves is %d)", len(leafValues), numLeaves)
	}
	t.leafValues = leafValues
''', '''	if numLeaves <= 0 {
		return t, fmt.Errorf("num_leaves < 1")
	}
	numNodes := numLeaves - 1

	if t.leafValues, err = params.ToFloat64Slice("leaf_value"); err != nil {
		return t, err
	}
	if n := len(t.leafValues); n-1 != numNodes {
		return t, fmt.Errorf("unexpected number of leaf values (%d, num_leaves is %d)", n, numLeaves)
	}
''')),
]

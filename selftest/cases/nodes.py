LG='lgensemble_io.go'; XG='xgensemble_io.go'; SK='skensemble_io.go'; LT='lgtree.go'; UT='util/util.go'; XB='internal/xgbin/xgbin.go'
def b(n,*e): return dict(name='node-'+n,edits=list(e),bug=['C11'])
def ok(n,*e): return dict(name='ok-node-'+n,edits=list(e),ok=True)
def cut(f,a,z):
    s=open('/repo/'+f).read(); s=s[s.index(a):]; return s[:s.index(z)]
TEXT=cut(LG,'func lgTreeFromReader','// LGEnsembleFromReader'); XGT=cut(XG,'func xgTreeFromTreeModel','// XGEnsembleFromReader'); JS=cut(LG,'func unmarshalTree','// LGEnsembleFromJSON')
SKT=cut(SK,'func lgTreeFromSk','// SKEnsembleFromReader')
LEAVESX='''		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {
			node.Flags |= leftLeaf
			node.Left = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, float64(origTree.Nodes[origNode.CLeft].Info))
		}
		if xgIsLeaf(&origTree.Nodes[origNode.CRight]) {
			node.Flags |= rightLeaf
			node.Right = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, float64(origTree.Nodes[origNode.CRight].Info))
		}
'''
LOOPX=XGT.split('	for len(origNodeIdxStack) > 0 {\n',1)[1].split('	return t, nil\n}',1)[0]
LOOPX='	for len(origNodeIdxStack) > 0 {\n'+LOOPX
LOOPXR=XGT.split('		if t.nodes[convIdx].Flags&rightLeaf == 0 {',1)[1].split('		if t.nodes[convIdx].Flags&leftLeaf == 0 {',1)[0]
RECX='''	var convert func(idx int32) (uint32, error)
'''
POPX='		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]\n		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]\n'
LEAVEST='''		if leftChilds[idx] < 0 {
			node.Flags |= leftLeaf
			node.Left = uint32(^leftChilds[idx])
		}
		if rightChilds[idx] < 0 {
			node.Flags |= rightLeaf
			node.Right = uint32(^rightChilds[idx])
		}
'''
cases=[
# text
b('defbit',(LG,'if decisionTypes[idx]&(1<<1) > 0 {','if decisionTypes[idx]&(1<<2) > 0 {')),
b('defright',(LG,'		if decisionTypes[idx]&(1<<1) > 0 {\n			defaultType = defaultLeft\n','		if decisionTypes[idx]&(1<<1) > 0 && missingType != 0 {\n			defaultType = defaultLeft\n')),
b('misszero',(LG,'	} else if missingType == 2 {\n','	} else if missingType == 3 {\n') if '	} else if missingType == 2 {\n' in open('/repo/'+LG).read() else (LG,'missingZero','missingNan')),
b('jsonmissing',(LG,'"Zero": missingZero','"Zero": missingNan')),
b('catbit',(LG,'if decisionTypes[idx]&1 > 0 {','if decisionTypes[idx]&1 > 0 && numCategorical > 1 {')),
b('thr32',(LG,'missingType, thresholds[idx], defaultType)','missingType, float64(float32(thresholds[idx])), defaultType)')),
b('featidx',(LG,'numericalNode(splitFeatures[idx], missingType','numericalNode(splitFeatures[idx]&0xffff, missingType')),
b('leafbit',(LG,'node.Left = uint32(^leftChilds[idx])','node.Left = uint32(uint16(^leftChilds[idx]))')),
b('leafneg',(LG,'node.Right = uint32(^rightChilds[idx])','node.Right = uint32(-rightChilds[idx])')),
b('leafswap',(LG,'node.Right = uint32(^rightChilds[idx])','node.Right = uint32(^leftChilds[idx])')),
b('catleaf',(LG,LEAVEST+'		return node, nil\n	}\n	createNode',LEAVEST.replace('node.Flags |= rightLeaf','node.Flags |= leftLeaf')+'		return node, nil\n	}\n	createNode')),
b('linkside',(LG,'				t.nodes[convIdx].Left = uint32(convNewIdx)','				t.nodes[convIdx].Right = uint32(convNewIdx)')),
b('linkidx',(LG,'				t.nodes[convIdx].Left = uint32(convNewIdx)','				t.nodes[convNewIdx].Left = uint32(convNewIdx)')),
b('link16',(LG,'				t.nodes[convIdx].Right = uint32(convNewIdx)','				t.nodes[convIdx].Right = uint32(uint16(convNewIdx))')),
b('push',(LG,'convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))','convNodeIdxStack = append(convNodeIdxStack, uint32(origIdx))')),
b('wrongkey',(LG,'params.ToInt32Slice("right_child")','params.ToInt32Slice("left_child")')),
b('leafkey',(LG,'params.ToFloat64Slice("leaf_value")','params.ToFloat64Slice("leaf_weight")')),
b('const2',(LG,'	if numLeaves == 1 {\n		// special','	if numLeaves <= 2 {\n		// special')),
b('parsebits',(UT,'strconv.ParseFloat(vStr, 64)','strconv.ParseFloat(vStr, 32)')),
b('parseint',(UT,'		value, err := strconv.ParseInt(vStr, 10, 32)','		value, err := strconv.ParseInt(vStr, 10, 64)')),
b('parsebase',(UT,'strconv.ParseUint(vStr, 10, 32)','strconv.ParseUint(vStr, 0, 32)')),
b('parseskip',(UT,'	for _, vStr := range valuesStr {\n		value, err := strconv.ParseFloat','	for _, vStr := range valuesStr {\n		if vStr == "nan" {\n			continue\n		}\n		value, err := strconv.ParseFloat')),
b('parselim',(UT,'	for _, vStr := range valuesStr {\n		value, err := strconv.ParseInt','	for i, vStr := range valuesStr {\n		if i == 4096 {\n			break\n		}\n		value, err := strconv.ParseInt')),
b('lines',(UT,'		if err != nil && err != io.EOF {\n			return nil, err\n		}\n','		if err == io.EOF {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}\n')),
b('linekey',(UT,'params[tokens[0]] = tokens[1]','if _, seen := params[tokens[0]]; !seen {\n				params[tokens[0]] = tokens[1]\n			}')),
b('linetrunc',(UT,'		if len(tokens) > 2 {\n			return nil','		if len(tokens) > 2 && false {\n			return nil')),
# xgboost
b('xgdef',(XG,'(origNode.SIndex >> 31) != 0','(origNode.SIndex >> 30) != 0')),
b('xgmask',(XG,'((1 << 31) - 1)','((1 << 24) - 1)')),
b('xgleaf',(XG,'float64(origTree.Nodes[origNode.CRight].Info))\n		}\n		return','float64(origTree.Nodes[origNode.CLeft].Info))\n		}\n		return')),
b('xgmiss',(XG,'uint8(missingNan)','uint8(missingZero)')),
b('xgroot',(XG,'createNode(&origTree.Nodes[0])','createNode(&origTree.Nodes[numNodes-1])')),
b('xgvisit',(XG,'				visited[origIdx] = true\n				t.nodes[convIdx].Right','				visited[origIdx&31] = true\n				t.nodes[convIdx].Right')),
b('xgpop',(XG,POPX,POPX.replace('origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]','if len(origNodeIdxStack) > 64 {\n			break\n		}\n		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]'))),
b('xgconst',(XG,'t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))','t.leafValues = append(t.leafValues, float64(origTree.Stats[0].BaseWeight))')),
b('xgconstcond',(XG,'	if numNodes == 1 {\n','	if numNodes <= 3 && origTree.Nodes[0].Info == 0 {\n')),
b('xgfold',(XG,'		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {\n			node.Flags |= leftLeaf\n			node.Left = uint32(len(t.leafValues))\n			t.leafValues = append','		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {\n			node.Flags |= leftLeaf\n			node.Left = uint32(len(t.leafValues) & 0xff)\n			t.leafValues = append')),
# sklearn
b('skscale',(SK,'tree.Tree.Values[refNode.RightChild]*scale+base)','tree.Tree.Values[refNode.RightChild]*scale)')),
b('skleafidx',(SK,'tree.Tree.Values[refNode.LeftChild]*scale+base)','tree.Tree.Values[idx]*scale+base)')),
b('skright',(SK,'if tree.Tree.Nodes[refNode.RightChild].LeftChild < 0 {','if tree.Tree.Nodes[refNode.RightChild].RightChild <= 0 {')),
b('skmiss',(SK,'		missingType := uint8(0)\n','		missingType := uint8(missingNan)\n')),
b('skconst',(SK,'tree.Tree.Values[0]*scale+base)','tree.Tree.Values[0]*scale)')),
b('skthr',(SK,'refNode.Threshold, defaultType)','refNode.Impurity, defaultType)')),
# json
b('jsdef',(LG,'		if nodeJSON.DefaultLeft {\n			defaultType','		if !nodeJSON.DefaultLeft {\n			defaultType')),
b('jsptr',(LG,'StackData{&t.nodes[len(t.nodes)-1].Right, right}','StackData{&t.nodes[len(t.nodes)-1].Left, right}')),
b('jschild',(LG,'if right, ok := stackData.nodeJSON.RightChild.(*lgNodeJSON); ok {','if right, ok := stackData.nodeJSON.LeftChild.(*lgNodeJSON); ok {')),
b('jscap',(LG,'	t.nodes = make([]lgNode, 0, numNodes)\n\n	for len(stack)','	t.nodes = make([]lgNode, 0, numNodes/2)\n\n	for len(stack)')),
b('jsraw',(LG,'unmarshalNode(node.RightChildRaw)','unmarshalNode(node.LeftChildRaw)')),
b('jsleaf',(LG,'data["leaf_value"]','data["leaf_weight"]')),
b('jsskip',(LG,'	node.RightChild, err = unmarshalNode(node.RightChildRaw)\n	if err != nil {\n		return nil, err\n	}\n','	if len(node.RightChildRaw) > 16 {\n		node.RightChild, err = unmarshalNode(node.RightChildRaw)\n		if err != nil {\n			return nil, err\n		}\n	} else {\n		node.RightChild = node.LeftChild\n	}\n')),
b('jsfeat',(LG,'numericalNode(nodeJSON.SplitFeature, missingType, threshold','numericalNode(nodeJSON.SplitIndex, missingType, threshold')) if 'SplitIndex ' in open('/repo/'+LG).read() else b('jsfeat',(LG,'numericalNode(nodeJSON.SplitFeature,','numericalNode(nodeJSON.SplitFeature%1000,')),
b('jsdone',(LG,'		if node.Flags&rightLeaf == 0 {\n			if right','		if node.Flags&rightLeaf == 0 && len(stack) < 100 {\n			if right')),
# lgTree constructors
b('numflags',(LT,'	node.Flags = missingType | defaultType\n	node.Threshold','	node.Flags = missingType\n	if missingType != missingZero {\n		node.Flags |= defaultType\n	}\n	node.Threshold')),
ok('numflags',(LT,'	node := lgNode{}\n	node.Feature = feature\n	node.Flags = missingType | defaultType\n	node.Threshold = threshold\n	return node\n','	return lgNode{Threshold: threshold, Feature: feature, Flags: defaultType + missingType}\n')),
# refactorings
ok('xghelper',(XG,LEAVESX,'''		addLeaf := func(n *xgbin.Node) uint32 {
			t.leafValues = append(t.leafValues, float64(n.Info))
			return uint32(len(t.leafValues) - 1)
		}
		if left := &origTree.Nodes[origNode.CLeft]; xgIsLeaf(left) {
			node.Flags |= leftLeaf
			node.Left = addLeaf(left)
		}
		if right := &origTree.Nodes[origNode.CRight]; xgIsLeaf(right) {
			node.Flags |= rightLeaf
			node.Right = addLeaf(right)
		}
''')),
ok('xgconv',(XG,'''				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
''','''				convNewIdx := len(t.nodes)
				t.nodes = append(t.nodes, node)
''')),
ok('xglinkfirst',(XG,'''				visited[origIdx] = true
				t.nodes[convIdx].Right = uint32(convNewIdx)
''','''				t.nodes[convIdx].Right = uint32(convNewIdx)
				visited[origIdx] = true
''')),
ok('xgtop',(XG,'		convIdx := convNodeIdxStack[len(convNodeIdxStack)-1]\n','		top := len(origNodeIdxStack) - 1\n		convIdx := convNodeIdxStack[len(convNodeIdxStack)-1]\n		orig := &origTree.Nodes[origNodeIdxStack[top]]\n'),(XG,'origTree.Nodes[origNodeIdxStack[len(origNodeIdxStack)-1]].CRight','orig.CRight'),(XG,'origTree.Nodes[origNodeIdxStack[len(origNodeIdxStack)-1]].CLeft','orig.CLeft')),
ok('xgstruct',(XG,'	origNodeIdxStack := make([]uint32, 0, numNodes)\n	convNodeIdxStack := make([]uint32, 0, numNodes)\n','	type pair struct{ orig, conv uint32 }\n	stack := make([]pair, 0, numNodes)\n'),
 (XG,'	origNodeIdxStack = append(origNodeIdxStack, 0)\n	convNodeIdxStack = append(convNodeIdxStack, 0)\n','	stack = append(stack, pair{0, 0})\n'),
 (XG,LOOPX,LOOPX.replace('len(origNodeIdxStack) > 0','len(stack) > 0').replace('convNodeIdxStack[len(convNodeIdxStack)-1]\n','stack[len(stack)-1].conv\n',1).replace('origNodeIdxStack[len(origNodeIdxStack)-1]]','stack[len(stack)-1].orig]').replace('				convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))\n				origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))\n','				stack = append(stack, pair{uint32(origIdx), uint32(convNewIdx)})\n').replace('		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]\n		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]\n','		stack = stack[:len(stack)-1]\n'))),
ok('xgpush',(XG,LOOPX,LOOPX.replace('''				node, err := createNode(&origTree.Nodes[origIdx])
				if err != nil {
					return t, err
				}
				t.nodes = append(t.nodes, node)
				convNewIdx := len(t.nodes) - 1
				convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))
				origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
				visited[origIdx] = true
''','''				convNewIdx, err := push(origIdx)
				if err != nil {
					return t, err
				}
''')),(XG,'	for len(origNodeIdxStack) > 0 {\n','''	push := func(origIdx int32) (int, error) {
		node, err := createNode(&origTree.Nodes[origIdx])
		if err != nil {
			return 0, err
		}
		t.nodes = append(t.nodes, node)
		convNewIdx := len(t.nodes) - 1
		convNodeIdxStack = append(convNodeIdxStack, uint32(convNewIdx))
		origNodeIdxStack = append(origNodeIdxStack, uint32(origIdx))
		visited[origIdx] = true
		return convNewIdx, nil
	}
	for len(origNodeIdxStack) > 0 {
''')),
ok('xgneq',(XG,'Flags&rightLeaf == 0 {','Flags&rightLeaf != rightLeaf {')),
ok('textorder',(LG,LEAVEST,'''		if right := rightChilds[idx]; right < 0 {
			node.Right = uint32(-right - 1)
			node.Flags |= rightLeaf
		}
		if left := leftChilds[idx]; left < 0 {
			node.Left = uint32(-left - 1)
			node.Flags |= leftLeaf
		}
''')),
ok('textswitch',(LG,'		if decisionTypes[idx]&1 > 0 {\n			return createCategoricalNode(idx)\n		}\n		return createNumericalNode(idx)\n','		switch decisionTypes[idx] & 1 {\n		case 0:\n			return createNumericalNode(idx)\n		default:\n			return createCategoricalNode(idx)\n		}\n')),
ok('textdef',(LG,'		defaultType := uint8(0)\n		if decisionTypes[idx]&(1<<1) > 0 {\n			defaultType = defaultLeft\n		}\n','		var defaultType uint8\n		if dt := decisionTypes[idx]; dt&2 != 0 {\n			defaultType = defaultLeft\n		}\n')),
ok('jshelper',(LG,'''		if value, ok := nodeJSON.LeftChild.(float64); ok {
			node.Flags |= leftLeaf
			node.Left = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, value)
		}
		if value, ok := nodeJSON.RightChild.(float64); ok {
			node.Flags |= rightLeaf
			node.Right = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, value)
		}
''','''		leafIdx := func(child interface{}) (uint32, bool) {
			value, ok := child.(float64)
			if ok {
				t.leafValues = append(t.leafValues, value)
			}
			return uint32(len(t.leafValues) - 1), ok
		}
		if idx, ok := leafIdx(nodeJSON.LeftChild); ok {
			node.Flags |= leftLeaf
			node.Left = idx
		}
		if idx, ok := leafIdx(nodeJSON.RightChild); ok {
			node.Flags |= rightLeaf
			node.Right = idx
		}
''')),
ok('jsswitch',(LG,'''			if left, ok := stackData.nodeJSON.LeftChild.(*lgNodeJSON); ok {
				stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Left, left})
			} else if _, ok := stackData.nodeJSON.LeftChild.(float64); ok {
			} else {
				return t, fmt.Errorf("unexpected left child type %T", stackData.nodeJSON.LeftChild)
			}
''','''			switch left := stackData.nodeJSON.LeftChild.(type) {
			case *lgNodeJSON:
				stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Left, left})
			default:
				return t, fmt.Errorf("unexpected left child type %T", left)
			}
''')),
ok('jslocal',(LG,'		t.nodes = append(t.nodes, node)\n		if node.Flags&leftLeaf','		t.nodes = append(t.nodes, node)\n		added := &t.nodes[len(t.nodes)-1]\n		if node.Flags&leftLeaf'),(LG,'&t.nodes[len(t.nodes)-1].Left','&added.Left'),(LG,'&t.nodes[len(t.nodes)-1].Right','&added.Right')),
ok('jsorder',(LG,'		if stackData.parentPtr != nil {\n			*stackData.parentPtr = uint32(len(t.nodes))\n		}\n		t.nodes = append(t.nodes, node)\n','		t.nodes = append(t.nodes, node)\n		if parent := stackData.parentPtr; parent != nil {\n			*parent = uint32(len(t.nodes) - 1)\n		}\n')),
ok('jsdecode',(LG,'''	node.LeftChild, err = unmarshalNode(node.LeftChildRaw)
	if err != nil {
		return nil, err
	}
	node.RightChild, err = unmarshalNode(node.RightChildRaw)
	if err != nil {
		return nil, err
	}
''','''	if node.RightChild, err = unmarshalNode(node.RightChildRaw); err != nil {
		return nil, err
	}
	left, err := unmarshalNode(node.LeftChildRaw)
	if err != nil {
		return nil, err
	}
	node.LeftChild = left
''')),
ok('skhelper',(SK,'''		if tree.Tree.Nodes[refNode.LeftChild].LeftChild < 0 {
			node.Flags |= leftLeaf
			node.Left = uint32(len(t.leafValues))
			t.leafValues = append(t.leafValues, tree.Tree.Values[refNode.LeftChild]*scale+base)
		}
''','''		isLeaf := func(i int) bool { return tree.Tree.Nodes[i].LeftChild < 0 }
		if isLeaf(refNode.LeftChild) {
			value := base + scale*tree.Tree.Values[refNode.LeftChild]
			t.leafValues = append(t.leafValues, value)
			node.Left = uint32(len(t.leafValues) - 1)
			node.Flags |= leftLeaf
		}
''')),
ok('skref',(SK,'refNode := &tree.Tree.Nodes[idx]','refNode := tree.Tree.Nodes[idx]')),
ok('parsehelper',(UT,'	valuesStr := strings.Split(valueStr, " ")\n	values := make([]float64, 0, len(valuesStr))\n','	tokens := strings.Split(valueStr, " ")\n	valuesStr := tokens\n	values := make([]float64, 0)\n')),
ok('parseindex',(UT,'''	values := make([]int32, 0, len(valuesStr))
	for _, vStr := range valuesStr {
		value, err := strconv.ParseInt(vStr, 10, 32)
		if err != nil {
			return nil, fmt.Errorf("can't convert %s: %s", key, err.Error())
		}
		values = append(values, int32(value))
	}
''','''	values := make([]int32, len(valuesStr))
	for i := 0; i < len(valuesStr); i++ {
		value, err := strconv.ParseInt(valuesStr[i], 10, 32)
		if err != nil {
			return nil, fmt.Errorf("can't convert %s: %s", key, err.Error())
		}
		values[i] = int32(value)
	}
''')),
ok('linesswitch',(UT,'''		if len(tokens) > 2 {
			return nil, fmt.Errorf("meet wrong format while reading params")
		} else if len(tokens) == 2 {
			params[tokens[0]] = tokens[1]
		} else if len(tokens) == 1 {
			params[tokens[0]] = ""
		}
''','''		switch len(tokens) {
		case 1:
			params[tokens[0]] = ""
		case 2:
			params[tokens[0]] = tokens[1]
		default:
			return nil, fmt.Errorf("meet wrong format while reading params")
		}
''')),
ok('linesvalue',(UT,'''		if len(tokens) > 2 {
			return nil, fmt.Errorf("meet wrong format while reading params")
		} else if len(tokens) == 2 {
			params[tokens[0]] = tokens[1]
		} else if len(tokens) == 1 {
			params[tokens[0]] = ""
		}
''','''		if len(tokens) > 2 {
			return nil, fmt.Errorf("meet wrong format while reading params")
		}
		value := ""
		if len(tokens) == 2 {
			value = tokens[1]
		}
		params[tokens[0]] = value
''')),
]

X='internal/xgbin/xgbin_io.go'; XE='xgensemble_io.go'
def b(n,*e,ids=('C18',)): return dict(name='wire-'+n,edits=list(e),bug=list(ids))
def ok(n,*e): return dict(name='ok-wire-'+n,edits=list(e),ok=True)
def cut(f,a,z):
    s=open('/repo/'+f).read(); s=s[s.index(a):]; return s[:s.index(z)]
NODES=cut(X,'	for i := int32(0); i < treeModel.Param.NumNodes; i++ {\n		node := ','	for i := int32(0); i < treeModel.Param.NumNodes; i++ {\n		stat')
STATS=cut(X,'	for i := int32(0); i < treeModel.Param.NumNodes; i++ {\n		stat','	if treeModel.Param.SizeLeafVector > 0')
TREES=cut(X,'	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {','	if gBTreeModel.Param.NumTrees > 0 {')
LEAF=cut(X,'	if treeModel.Param.SizeLeafVector > 0 {','	return treeModel, nil')
INFO=cut(X,'	if gBTreeModel.Param.NumTrees > 0 {','	// NOTE: skip other')
RS=cut(X,'func ReadString','// ReadFloat32Slice')
RF=cut(X,'func ReadFloat32Slice','// ReadInt32Slice')
RT=cut(X,'func ReadTreeModel','// ReadGBLinearModel')
MAKES='	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)\n	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)\n'
cases=[
b('bigendian',(X,'binary.Read(reader, binary.LittleEndian, &vec)','binary.Read(reader, binary.BigEndian, &vec)')),
b('bigendian-info',(X,'binary.Read(reader, binary.LittleEndian, &gBTreeModel.TreeInfo)','binary.Read(reader, binary.BigEndian, &gBTreeModel.TreeInfo)')),
b('size32',(RF and X,RF,RF.replace('var size uint64','var size uint32'))),
b('float64vec',(X,'func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {\n	var size uint64','func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {\n	var size uint64\n	var zero uint32\n	if err := binary.Read(reader, binary.LittleEndian, &zero); err != nil {\n		return nil, err\n	}')),
b('swapnames',(X,'modelHeader.NameObj = nameObj','modelHeader.NameGbm = nameObj'),(X,'	modelHeader.NameGbm = nameGbm\n','	modelHeader.NameObj = nameGbm\n')),
b('swapchildren',(X,'	CLeft  int32\n	CRight int32\n','	CRight int32\n	CLeft  int32\n')),
b('reserved28',(X,'Reserved [29]int32','Reserved [28]int32')),
b('reserved31',(X,'	Reserved [31]int32','	Reserved [32]int32')),
b('pbuffer32',(X,'NumPbufferDeprecated int64','NumPbufferDeprecated int32')),
b('nopad',(X,'	Pad32bit int32\n','')),
b('leafvector-skip',(X,LEAF,'')),
b('leafvector-gt1',(X,'treeModel.Param.SizeLeafVector > 0','treeModel.Param.SizeLeafVector > 1')),
b('leafvector-always',(X,'if treeModel.Param.SizeLeafVector > 0 {','if treeModel.Param.SizeLeafVector >= 0 {')),
b('nodes-live',(X,'i < treeModel.Param.NumNodes; i++ {\n		node','i < treeModel.Param.NumNodes-treeModel.Param.NumDeleted; i++ {\n		node')),
b('stats-live',(X,'i < treeModel.Param.NumNodes; i++ {\n		stat','i < treeModel.Param.NumNodes-treeModel.Param.NumDeleted; i++ {\n		stat')),
b('stats-first',(X,NODES+STATS,STATS+NODES)),
b('stats-none',(X,STATS,'')),
b('info-after-one',(X,'if gBTreeModel.Param.NumTrees > 0 {','if gBTreeModel.Param.NumTrees > 1 {')),
b('info-groups',(X,INFO,INFO.replace('if gBTreeModel.Param.NumTrees > 0 {','if gBTreeModel.Param.NumOutputGroup > 1 {'))),
b('trees-roots',(X,'i < gBTreeModel.Param.NumTrees; i++','i < gBTreeModel.Param.NumTrees*gBTreeModel.Param.NumRoots; i++')),
b('trees-skip-empty',(X,'		gBTreeModel.Trees = append(gBTreeModel.Trees, tree)','		if tree.Param.NumNodes > 1 {\n			gBTreeModel.Trees = append(gBTreeModel.Trees, tree)\n		}')),
b('nodes-nodeleted',(X,'		treeModel.Nodes = append(treeModel.Nodes, node)','		if node.Parent == -1 && i > 0 {\n			continue\n		}\n		treeModel.Nodes = append(treeModel.Nodes, node)')),
b('node-info',(X,'		treeModel.Nodes = append(treeModel.Nodes, node)','		if node.CLeft == node.CRight && node.CLeft > 0 {\n			node.Info = 0\n		}\n		treeModel.Nodes = append(treeModel.Nodes, node)')),
b('weights-clip',(X,'	return gbLinearModel, nil','	if len(gbLinearModel.Weights) > 0 {\n		gbLinearModel.Weights[len(gbLinearModel.Weights)-1] += 0.25\n	}\n	return gbLinearModel, nil')),
b('string-trim',(X,'bytes := make([]byte, size)','bytes := make([]byte, size-size%2)')),
b('dart-order',(XE,'	if header.NameGbm == "dart" {\n		// read','	if header.NameGbm == "dart" && header.Param.ContainExtraAttrs == 0 {\n		// read'),(XE,'	} else if header.NameGbm == "gbtree" {\n		// use','	} else if header.NameGbm == "gbtree" || header.Param.ContainExtraAttrs != 0 {\n		// use')),
b('extra-byte',(XE,'	origModel, err := xgbin.ReadGBTreeModel(reader)','	if header.Param.ContainEvalMetrics != 0 {\n		if _, err := reader.ReadByte(); err != nil {\n			return nil, err\n		}\n	}\n	origModel, err := xgbin.ReadGBTreeModel(reader)') if 'origModel, err := xgbin.ReadGBTreeModel(reader)' in open('/repo/'+XE).read() else (XE,'xgbin.ReadGBTreeModel(reader)','xgbin.ReadGBTreeModel(reader)')),
b('mask30',(XE,'((1 << 31) - 1)','((1 << 30) - 1)')),
b('bit30',(XE,'(origNode.SIndex >> 31) != 0','(origNode.SIndex >> 30) != 0')),
b('thr',(XE,'return origNode.SIndex & ((1 << 31) - 1)','if origNode.SIndex>>31 == 0 {\n\t\treturn origNode.SIndex & 0xffff\n\t}\n\treturn origNode.SIndex & ((1 << 31) - 1)')),
ok('nodes-atonce',(X,MAKES,'	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)\n'),(X,NODES,'	treeModel.Nodes = make([]Node, treeModel.Param.NumNodes)\n	if err := ReadStruct(reader, treeModel.Nodes); err != nil {\n		return nil, err\n	}\n')),
ok('nodes-inplace',(X,MAKES,'	treeModel.Nodes = make([]Node, treeModel.Param.NumNodes)\n	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)\n'),(X,NODES,'	for i := range treeModel.Nodes {\n		if err := ReadStruct(reader, &treeModel.Nodes[i]); err != nil {\n			return nil, err\n		}\n	}\n')),
ok('nodes-local',(X,MAKES,'	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)\n	nodes := make([]Node, 0, treeModel.Param.NumNodes)\n'),(X,NODES,NODES.replace('treeModel.Nodes = append(treeModel.Nodes, node)','nodes = append(nodes, node)')+'	treeModel.Nodes = nodes\n')),
ok('nodes-helper',(X,NODES,'	nodes, err := readNodes(reader, treeModel.Param.NumNodes)\n	if err != nil {\n		return nil, err\n	}\n	treeModel.Nodes = nodes\n'),(X,'// ReadTreeModel reads','func readNodes(reader *bufio.Reader, n int32) ([]Node, error) {\n	nodes := make([]Node, n)\n	for i := int32(0); i < n; i++ {\n		var node Node\n		if err := ReadStruct(reader, &node); err != nil {\n			return nil, err\n		}\n		nodes[i] = node\n	}\n	return nodes, nil\n}\n\n// ReadTreeModel reads')),
ok('nostats',(X,STATS,'	stats := make([]RTreeNodeStat, treeModel.Param.NumNodes)\n	if err := ReadStruct(reader, stats); err != nil {\n		return nil, err\n	}\n	treeModel.Stats = stats\n')),
ok('leaf-early',(X,LEAF,'	if treeModel.Param.SizeLeafVector <= 0 {\n		return treeModel, nil\n	}\n	if _, err := ReadFloat32Slice(reader); err != nil {\n		return nil, err\n	}\n')),
ok('string-readfull',(X,'	err = binary.Read(reader, binary.LittleEndian, &bytes)','	_, err = io.ReadFull(reader, bytes)'),(X,'	"encoding/binary"\n','	"encoding/binary"\n	"io"\n')),
ok('string-plain',(X,'binary.Read(reader, binary.LittleEndian, &bytes)','binary.Read(reader, binary.LittleEndian, bytes)')),
ok('size-helper',(X,RF,RF.replace('	var size uint64\n	err := binary.Read(reader, binary.LittleEndian, &size)\n','	size, err := readSize(reader)\n')+'func readSize(reader *bufio.Reader) (uint64, error) {\n	var size uint64\n	err := binary.Read(reader, binary.LittleEndian, &size)\n	return size, err\n}\n\n')),
ok('header-literal',(X,cut(X,'	modelHeader := &ModelHeader{}','// ReadGBTreeModel reads'),'''	var param LearnerModelParam
	if err := ReadStruct(reader, &param); err != nil {
		return nil, err
	}
	nameObj, err := ReadString(reader)
	if err != nil {
		return nil, err
	}
	nameGbm, err := ReadString(reader)
	if err != nil {
		return nil, err
	}
	return &ModelHeader{Param: param, NameObj: nameObj, NameGbm: nameGbm}, nil
}

''')),
ok('trees-prealloc',(X,TREES,'''	if n := gBTreeModel.Param.NumTrees; n > 0 {
		gBTreeModel.Trees = make([]*TreeModel, n)
		for i := range gBTreeModel.Trees {
			tree, err := ReadTreeModel(reader)
			if err != nil {
				return nil, err
			}
			gBTreeModel.Trees[i] = tree
		}
	}
''')),
ok('trees-int',(X,TREES,TREES.replace('for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {','numTrees := int(gBTreeModel.Param.NumTrees)\n	for i := 0; i < numTrees; i++ {'))),
ok('tree-literal',(X,RT,'''func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
	var param TreeParam
	if err := ReadStruct(reader, &param); err != nil {
		return nil, err
	}
	var nodes []Node
	for i := 0; i < int(param.NumNodes); i++ {
		var node Node
		if err := ReadStruct(reader, &node); err != nil {
			return nil, err
		}
		nodes = append(nodes, node)
	}
	var stats []RTreeNodeStat
	for i := 0; i < int(param.NumNodes); i++ {
		var stat RTreeNodeStat
		if err := ReadStruct(reader, &stat); err != nil {
			return nil, err
		}
		stats = append(stats, stat)
	}
	if param.SizeLeafVector > 0 {
		if _, err := ReadFloat32Slice(reader); err != nil {
			return nil, err
		}
	}
	return &TreeModel{Nodes: nodes, Stats: stats, Param: param}, nil
}

''')),
ok('info-slice',(X,INFO,'''	if gBTreeModel.Param.NumTrees > 0 {
		info := make([]int32, gBTreeModel.Param.NumTrees)
		if err := ReadStruct(reader, info); err != nil {
			return nil, err
		}
		gBTreeModel.TreeInfo = info
	}
''')),
]

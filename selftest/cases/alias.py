# objects and lists shared by several parts of a model
XB = 'internal/xgbin/xgbin_io.go'; IO = 'lgensemble_io.go'; XI = 'xgensemble_io.go'; SK = 'skensemble_io.go'
def bug(name, ids, *edits): return dict(name='alias-' + name, bug=ids, edits=list(edits))
loop = '''	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
		tree, err := ReadTreeModel(reader)
		if err != nil {
'''
head = '''// ReadTreeModel reads particular tree data from binary model file
func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
	treeModel := &TreeModel{}
	err :='''
nodes = '	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)\n'
cases = [
bug('one-tree', ['C18'], (XB, loop, '''	tree := &TreeModel{}
	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
		tree, err := readTreeModel(reader, tree)
		if err != nil {
'''), (XB, head, '''// ReadTreeModel reads particular tree data from binary model file
func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
	return readTreeModel(reader, &TreeModel{})
}

func readTreeModel(reader *bufio.Reader, treeModel *TreeModel) (*TreeModel, error) {
	err :=''')),
bug('one-nodes', ['C18'], (XB, loop, '''	var nodes []Node
	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
		tree, err := readTreeModel(reader, &nodes)
		if err != nil {
'''), (XB, head, '''// ReadTreeModel reads particular tree data from binary model file
func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
	return readTreeModel(reader, new([]Node))
}

func readTreeModel(reader *bufio.Reader, buf *[]Node) (*TreeModel, error) {
	treeModel := &TreeModel{}
	err :='''), (XB, nodes, '''	if cap(*buf) < int(treeModel.Param.NumNodes) {
		*buf = make([]Node, 0, treeModel.Param.NumNodes)
	}
	treeModel.Nodes = (*buf)[:0]
''')),
bug('one-node', ['C18'], (XB, '''	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
		node := Node{}
''', '''	node := Node{}
	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
''')) if False else None,
bug('lg-nodes', ['C11'], (IO, 'func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {\n', """func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
	return readTree(reader, new([]lgNode))
}

func readTree(reader *bufio.Reader, buf *[]lgNode) (lgTree, error) {
"""), (IO, '	t.nodes = make([]lgNode, 0, numNodes)\n	node, err := createNode(0)\n', """	if cap(*buf) < numNodes {
		*buf = make([]lgNode, 0, numNodes)
	}
	t.nodes = (*buf)[:0]
	node, err := createNode(0)
"""), (IO, """	for i := 0; i < nTrees; i++ {
		tree, err := lgTreeFromReader(reader)
""", """	var buf []lgNode
	for i := 0; i < nTrees; i++ {
		tree, err := readTree(reader, &buf)
""")),
bug('lg-carve', ['C11'], (IO, 'func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {\n', """func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
	return readTree(reader, new([]lgNode))
}

func readTree(reader *bufio.Reader, buf *[]lgNode) (lgTree, error) {
"""), (IO, '	t.nodes = make([]lgNode, 0, numNodes)\n	node, err := createNode(0)\n', """	if cap(*buf)-len(*buf) < numNodes {
		*buf = make([]lgNode, 0, 1024+numNodes)
	}
	t.nodes = (*buf)[len(*buf):len(*buf)]
	*buf = (*buf)[:len(*buf)+numNodes-1]
	node, err := createNode(0)
"""), (IO, """	for i := 0; i < nTrees; i++ {
		tree, err := lgTreeFromReader(reader)
""", """	var buf []lgNode
	for i := 0; i < nTrees; i++ {
		tree, err := readTree(reader, &buf)
""")),
bug('leafs', ['C11'], (IO, """func unmarshalTree(raw []byte) (lgTree, error) {
	t := lgTree{}
""", """func unmarshalTree(raw []byte) (lgTree, error) {
	return unmarshalTreeTo(raw, nil)
}

func unmarshalTreeTo(raw []byte, leafs []float64) (lgTree, error) {
	t := lgTree{leafValues: leafs}
"""), (IO, """	for i := 0; i < nTrees; i++ {
		tree, err := unmarshalTree(data.Trees[i])
""", """	leafs := make([]float64, 0, nTrees)
	for i := 0; i < nTrees; i++ {
		tree, err := unmarshalTreeTo(data.Trees[i], leafs[:0])
""")),
]
cases = [c for c in cases if c]

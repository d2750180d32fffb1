LG='lgensemble_io.go'; XG='xgensemble_io.go'; XL='xgblinear_io.go'; SK='skensemble_io.go'; LT='lgtree.go'
def b(n,*e): return dict(name='keep-'+n,edits=list(e),bug=['C11'])
def ok(n,*e): return dict(name='ok-keep-'+n,edits=list(e),ok=True)
ADDX='		e.Trees = append(e.Trees, tree)\n	}\n	return &Ensemble{e, transform}, nil'
SKL=open('/repo/skensemble_io.go').read().split('	e.Trees = make([]lgTree, 0, gbdt.NEstimators*gbdt.NClasses)\n',1)[1].split('	return &Ensemble{e, &tr',1)[0]
SKB=SKL.split('			treeNum := i*e.nRawOutputGroups + j\n',1)[1].split('		}\n		for k',1)[0]
RESET='		for k := range base {\n			base[k] = 0.0\n		}\n'
LOGODD='		for i := 0; i < e.nRawOutputGroups; i++ {\n			base[i] = gbdt.InitEstimator.Prior[0]\n		}\n'
DART='		for i, v := range weightDrop {\n			e.WeightDrop[i] = float64(v)\n		}\n'
ONES='		for i := 0; i < int(origModel.Param.NumTrees); i++ {\n			e.WeightDrop[i] = 1.0\n		}\n'
XLOOP=open('/repo/xgensemble_io.go').read().split('	e.Trees = make([]lgTree, 0, nTrees)\n',1)[1].split('	return &Ensemble{e, transform}, nil',1)[0]
cases=[
b('skipstump',(XG,ADDX,'		if tree.nNodes() == 0 && tree.leafValues[0] == 0 {\n			continue\n		}\n'+ADDX)),
b('first',(XG,'xgTreeFromTreeModel(origModel.Trees[i],','xgTreeFromTreeModel(origModel.Trees[i/int32(e.nRawOutputGroups)*int32(e.nRawOutputGroups)],')),
b('reverse',(LG,'unmarshalTree(data.Trees[i])','unmarshalTree(data.Trees[nTrees-1-i])')),
b('oneless',(LG,'	for i := 0; i < nTrees; i++ {\n		tree, err := unmarshal','	for i := 0; i < nTrees-nTrees/256; i++ {\n		tree, err := unmarshal')),
b('textless',(LG,'	for i := 0; i < nTrees; i++ {\n		tree, err := lgTreeFromReader','	for i := 0; i < nTrees && i < 10000; i++ {\n		tree, err := lgTreeFromReader')),
b('base32',(XG,'e.BaseScore = float64(header.Param.BaseScore)','e.BaseScore = float64(int32(header.Param.BaseScore*1e6)) / 1e6')),
b('linbase',(XL,'e.BaseScore = float64(header.Param.BaseScore)','if header.Param.BaseScore > 0 {\n		e.BaseScore = float64(header.Param.BaseScore)\n	}')),
b('linweights',(XL,'e.Weights = gbLinearModel.Weights','e.Weights = append([]float32{}, gbLinearModel.Weights[:len(gbLinearModel.Weights)/2*2]...)')),
b('dartweight',(XG,DART,'		for i, v := range weightDrop {\n			if v > 0 {\n				e.WeightDrop[i] = float64(v)\n			}\n		}\n')),
b('dartweight1',(XG,DART,'		for i := range weightDrop[1:] {\n			e.WeightDrop[i] = float64(weightDrop[i])\n		}\n')),
b('dartshift',(XG,DART,'		for i := range weightDrop {\n			e.WeightDrop[i] = float64(weightDrop[len(weightDrop)-1-i])\n		}\n')),
b('ones',(XG,ONES,'		for i := 0; i < int(origModel.Param.NumTrees)-1; i++ {\n			e.WeightDrop[i] = 1.0\n		}\n')),
b('skswap',(SK,'gbdt.Estimators[treeNum], scale, base[j]','gbdt.Estimators[treeNum], base[j], scale')),
b('sknoreset',(SK,RESET,'')),
b('skresetfirst',(SK,RESET,'		for k := range base[1:] {\n			base[k] = 0.0\n		}\n')),
b('sktranspose',(SK,'treeNum := i*e.nRawOutputGroups + j','treeNum := j*gbdt.NEstimators + i')),
b('skprior0',(SK,'		base = gbdt.InitEstimator.Prior\n','		for i := range base {\n			base[i] = gbdt.InitEstimator.Prior[0]\n		}\n')),
b('skprioridx',(SK,'base[j])','base[0])')),
b('skrate',(SK,'	scale := gbdt.LearningRate\n','	scale := gbdt.LearningRate\n	if scale > 1 {\n		scale = 1\n	}\n')),
b('skscalebase',(SK,'base[i] = gbdt.InitEstimator.Prior[0]','base[i] = scale * gbdt.InitEstimator.Prior[0]')),
b('mutate',(LG,'		e.Trees = append(e.Trees, tree)\n','		if tree.nCategorical == 0 && i > 0 && len(tree.nodes) > 0 {\n			tree.nodes[0].Feature = e.Trees[0].nodes[0].Feature\n		}\n		e.Trees = append(e.Trees, tree)\n')),
ok('prealloc',(XG,'	e.Trees = make([]lgTree, 0, nTrees)\n','	e.Trees = make([]lgTree, nTrees)\n'),(XG,ADDX,ADDX.replace('e.Trees = append(e.Trees, tree)','e.Trees[i] = tree'))),
ok('jsonrange',(LG,'	for i := 0; i < nTrees; i++ {\n		tree, err := unmarshalTree(data.Trees[i])','	for i, raw := range data.Trees {\n		tree, err := unmarshalTree(raw)')),
ok('xgrange',(XG,'	for i := int32(0); i < nTrees; i++ {\n		tree, err := xgTreeFromTreeModel(origModel.Trees[i],','	for i, orig := range origModel.Trees[:nTrees] {\n		tree, err := xgTreeFromTreeModel(orig,')),
ok('xghelper',(XG,XLOOP,'	if e.Trees, err = convertTrees(origModel, header.Param.NumFeatures, e.NFeatures()); err != nil {\n		return nil, err\n	}\n'),(XG,'// XGEnsembleFromReader reads','func convertTrees(m *xgbin.GBTreeModel, numFeatures uint32, limit int) ([]lgTree, error) {\n	trees := make([]lgTree, 0, m.Param.NumTrees)\n'+XLOOP.replace('origModel.','m.').replace('e.Trees','trees').replace('nTrees','m.Param.NumTrees').replace('header.Param.NumFeatures','numFeatures').replace('e.NFeatures()','limit')+'	return trees, nil\n}\n\n// XGEnsembleFromReader reads')),
ok('skflat',(SK,SKL,'	for treeNum := 0; treeNum < gbdt.NEstimators*e.nRawOutputGroups; treeNum++ {\n		j := treeNum % e.nRawOutputGroups\n'+SKB.replace('base[j]','b').replace('			tree, err :=','			b := 0.0\n			if treeNum < e.nRawOutputGroups {\n				b = base[j]\n			}\n			tree, err :=')+'	}\n')),
ok('skif',(SK,'			tree, err := lgTreeFrom','			b := 0.0\n			if i == 0 {\n				b = base[j]\n			}\n			tree, err := lgTreeFrom'),(SK,'scale, base[j])','scale, b)'),(SK,RESET,'')),
ok('skcopy',(SK,'		base = gbdt.InitEstimator.Prior\n','		copy(base, gbdt.InitEstimator.Prior)\n')),
ok('skloopcopy',(SK,'		base = gbdt.InitEstimator.Prior\n','		for i, v := range gbdt.InitEstimator.Prior {\n			base[i] = v\n		}\n')),
ok('skresetone',(SK,'			e.Trees = append(e.Trees, tree)\n','			e.Trees = append(e.Trees, tree)\n			base[j] = 0.0\n'),(SK,RESET,'')),
ok('sklogrange',(SK,LOGODD,'		for i := range base {\n			base[i] = gbdt.InitEstimator.Prior[0]\n		}\n')),
ok('dartindex',(XG,DART,'		for i := 0; i < len(weightDrop); i++ {\n			w := float64(weightDrop[i])\n			e.WeightDrop[i] = w\n		}\n')),
ok('onesrange',(XG,ONES,'		for i := range e.WeightDrop {\n			e.WeightDrop[i] = 1.0\n		}\n')),
ok('weightsappend',(XG,'	e.WeightDrop = make([]float64, origModel.Param.NumTrees)\n','	e.WeightDrop = make([]float64, 0, origModel.Param.NumTrees)\n'),(XG,DART,'		for _, v := range weightDrop {\n			e.WeightDrop = append(e.WeightDrop, float64(v))\n		}\n'),(XG,ONES,'		for i := 0; i < int(origModel.Param.NumTrees); i++ {\n			e.WeightDrop = append(e.WeightDrop, 1.0)\n		}\n')),
ok('linfield',(XL,'	e.Weights = gbLinearModel.Weights\n','	weights := gbLinearModel.Weights\n	e.Weights = weights\n')),
]

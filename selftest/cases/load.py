LG='lgensemble_io.go'; XG='xgensemble_io.go'; XL='xgblinear_io.go'; SK='skensemble_io.go'; LT='lgtree.go'
def b13(n,*e): return dict(name='wf-'+n,edits=list(e),bug=['C13'])
def b15(n,*e): return dict(name='ref-'+n,edits=list(e),bug=['C15'])
def ok(n,*e): return dict(name='ok-load-'+n,edits=list(e),ok=True)
VAL='		if err := tree.validate(e.NFeatures()); err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n'
VALSK='			if err := tree.validate(e.NFeatures()); err != nil {\n				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())\n			}\n'
VLOOP=open('/repo/lgtree.go').read().split('	for i := range t.nodes {\n		node := &t.nodes[i]\n',1)[1].split('	return nil\n}\n',1)[0]
VFULL='	for i := range t.nodes {\n		node := &t.nodes[i]\n'+VLOOP
PAT=open('/repo/xgensemble_io.go').read().split('		curID := 0\n',1)[1].split('	}\n\n	var transform',1)[0]
cases=[
b13('nofeature',(LT,'int64(node.Feature) >= int64(nFeatures)','int64(node.Feature) > int64(nFeatures)')),
b13('feature32',(LT,'if int64(node.Feature) >= int64(nFeatures) {','if node.Feature > 0 && int64(node.Feature-1) > int64(nFeatures) {')),
b13('leafcount',(LT,'int64(node.Left) >= int64(len(t.leafValues))','int64(node.Left) > int64(len(t.leafValues))')),
b13('cycle',(LT,'int64(node.Left) <= int64(i) || ','')),
b13('selfloop',(LT,'int64(node.Left) <= int64(i) || ','int64(node.Left) < int64(i) || ')),
b13('rightrange',(LT,'int64(node.Right) != int64(i)+1 || int64(node.Right) >= int64(len(t.nodes))','int64(node.Right) != int64(i)+1')),
b13('rightchild',(LT,'int64(node.Right) != int64(i)+1 || int64(node.Right) >= int64(len(t.nodes))','int64(node.Right) >= int64(len(t.nodes))')),
b13('noleaves',(LT,'	if len(t.leafValues) == 0 {','	if len(t.leafValues) == 0 && len(t.nodes) > 0 {')),
b13('lastnode',(LT,'	for i := range t.nodes {','	for i := range t.nodes[1:] {')),
b13('root',(LT,'	for i := range t.nodes {\n','	for i := 1; i < len(t.nodes); i++ {\n')),
b13('skiptrees',(XG,VAL,VAL.replace('if err := tree.validate','if i > 0 {\n			e.Trees = append(e.Trees, tree)\n			continue\n		}\n		if err := tree.validate'))),
b13('first',(LG,VAL,VAL.replace('if err := tree.validate(e.NFeatures()); err != nil','if err := tree.validate(e.NFeatures()); err != nil && i == 0'))),
b13('nfeatures',(XG,VAL,VAL.replace('e.NFeatures()','e.NFeatures()+1'))),
b13('nval',(SK,VALSK,'')),
b13('early',(LT,'		if int64(node.Feature)','		if node.Flags&categorical > 0 {\n			continue\n		}\n		if int64(node.Feature)')),
b13('brk',(LT,'		} else if int64(node.Left) <= int64(i)','		} else if t.nCategorical > 0 {\n			break\n		} else if int64(node.Left) <= int64(i)')),
b15('version',(LG,'		if err := params.Compare("version", "v3"); err != nil {\n			return nil, err\n		}\n','		if err := params.Compare("version", "v3"); err != nil && !params.Contains("version") {\n			return nil, err\n		}\n')),
b15('v4',(LG,'		if err := params.Compare("version", "v3"); err != nil {\n			return nil, err\n		}\n','		if err := params.Compare("version", "v3"); err != nil {\n			if err := params.Compare("version", "v4"); err != nil {\n				return nil, err\n			}\n		}\n')),
b15('jsonversion',(LG,'	if data.Version != "v2" {','	if data.Version == "" {')),
b15('perit',(LG,'	if data.NumClasses != data.NumTreesPerIteration {','	if data.NumClasses < data.NumTreesPerIteration {')),
b15('mod',(LG,'	} else if nTrees%e.nRawOutputGroups != 0 {','	} else if nTrees < e.nRawOutputGroups {')),
b15('xgmod',(XG,'	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {','	if int(origModel.Param.NumTrees) < e.nRawOutputGroups {')),
b15('sigmoid',(LG,'objectiveStruct.value != 1','objectiveStruct.value < 1')),
b15('numclass',(LG,'objectiveStruct.value != e.nRawOutputGroups','objectiveStruct.value > e.nRawOutputGroups')),
b15('ova',(LG,'objectiveStruct.name == "multiclass" &&','strings.HasPrefix(objectiveStruct.name, "multiclass") &&')),
b15('gblinear',(XL,'header.NameGbm != "gblinear"','header.NameGbm == "gbtree"')),
b15('logistic',(XL,'header.NameObj == "binary:logistic"','strings.HasSuffix(header.NameObj, ":logistic")'),(XL,'	"os"\n','	"os"\n	"strings"\n')),
b15('logitraw',(XG,'header.NameObj == "binary:logistic"','header.NameObj == "binary:logistic" || header.NameObj == "binary:logitraw"')),
b15('outputs',(XG,'			if e.nRawOutputGroups != 1 {\n				return nil, fmt.Errorf("got objective \'%s\' with %d output groups", header.NameObj, e.nRawOutputGroups)\n			}\n','')),
b15('weights',(XL,'len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups','len(e.Weights) < (e.NumFeature+1)*e.nRawOutputGroups')),
b15('dart',(XG,'len(weightDrop) != int(origModel.Param.NumTrees)','len(weightDrop) > int(origModel.Param.NumTrees)')),
b15('pattern',(XG,'			if curID >= e.nRawOutputGroups {','			if curID > e.nRawOutputGroups {')),
b15('pattern2',(XG,'i < len(origModel.TreeInfo); i++ {\n			if int','i < e.nRawOutputGroups; i++ {\n			if int')),
b15('pattern3',(XG,'if int(origModel.TreeInfo[i]) != curID {','if int(origModel.TreeInfo[i]) > curID {')),
b15('roots',(XG,'	if origModel.Param.NumRoots != 1 {','	if origModel.Param.NumRoots < 1 {')),
b15('treeroots',(XG,'	if origTree.Param.NumRoots != 1 {','	if origTree.Param.NumRoots == 0 {')),
b15('sktrees',(SK,'gbdt.NEstimators*e.nRawOutputGroups != len(gbdt.Estimators)','gbdt.NEstimators*e.nRawOutputGroups > len(gbdt.Estimators)')),
b15('skprior',(SK,'	} else if gbdt.InitEstimator.Name == "PriorProbabilityEstimator" {\n		if len(gbdt.InitEstimator.Prior) != len(base) {','	} else if gbdt.InitEstimator.Name == "PriorProbabilityEstimator" {\n		if len(gbdt.InitEstimator.Prior) < len(base) {')),
b15('skinit',(SK,'	} else {\n		return nil, fmt.Errorf("unknown initial','	} else if gbdt.InitEstimator.Name != "ZeroEstimator" {\n		return nil, fmt.Errorf("unknown initial')),
b15('refusev3',(LG,'		if err := params.Compare("version", "v3"); err != nil {\n			return nil, err\n		}\n','		return nil, err\n')),
b15('refusemulti',(LG,'	} else if nTrees%e.nRawOutputGroups != 0 {','	} else if nTrees%(2*e.nRawOutputGroups) != 0 {')),
b15('refusemax',(XG,'	if origModel.Param.NumFeature > int32(header.Param.NumFeatures) {','	if origModel.Param.NumFeature >= int32(header.Param.NumFeatures) {')),
b15('refuseobj',(LG,'objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie"','objectiveStr == "poisson" || objectiveStr == "tweedie"')),
b15('refusebin',(LG,'objectiveStruct.value != 1 {','objectiveStruct.value >= 1 {')),
b15('rf',(LG,'loadTransformation && !e.averageOutput','loadTransformation || e.averageOutput')),
ok('switch',(XG,'	if header.NameGbm == "gbtree" {\n		e.name = "xgboost.gbtree"\n	} else if header.NameGbm == "dart" {\n		e.name = "xgboost.dart"\n	} else {\n		return nil, fmt.Errorf("only \'gbtree\' or \'dart\' is supported (got %s)", header.NameGbm)\n	}\n','	switch header.NameGbm {\n	case "gbtree":\n		e.name = "xgboost.gbtree"\n	case "dart":\n		e.name = "xgboost.dart"\n	default:\n		return nil, fmt.Errorf("only \'gbtree\' or \'dart\' is supported (got %s)", header.NameGbm)\n	}\n')),
ok('name',(XG,'	if header.NameGbm == "gbtree" {\n		e.name = "xgboost.gbtree"\n	} else if header.NameGbm == "dart" {\n		e.name = "xgboost.dart"\n	} else {\n		return nil, fmt.Errorf("only \'gbtree\' or \'dart\' is supported (got %s)", header.NameGbm)\n	}\n','	if header.NameGbm != "gbtree" && header.NameGbm != "dart" {\n		return nil, fmt.Errorf("only \'gbtree\' or \'dart\' is supported (got %s)", header.NameGbm)\n	}\n	e.name = "xgboost." + header.NameGbm\n')),
ok('pattern',(XG,'		curID := 0\n'+PAT,'		for i, id := range origModel.TreeInfo {\n			if int(id) != i%e.nRawOutputGroups {\n				return nil, fmt.Errorf("TreeInfo expected to have pattern [0 1 2 0 1 2...] (got %v)", origModel.TreeInfo)\n			}\n		}\n')),
ok('patternhelper',(XG,'	{\n		// Check that TreeInfo has expected pattern (0 1 2 0 1 2...)\n		curID := 0\n'+PAT+'	}\n','	if !cyclicInfo(origModel.TreeInfo, e.nRawOutputGroups) {\n		return nil, fmt.Errorf("TreeInfo expected to have pattern [0 1 2 0 1 2...] (got %v)", origModel.TreeInfo)\n	}\n'),(XG,'// XGEnsembleFromReader','func cyclicInfo(info []int32, n int) bool {\n	curID := 0\n	for i := range info {\n		if int(info[i]) != curID {\n			return false\n		}\n		curID++\n		if curID == n {\n			curID = 0\n		}\n	}\n	return true\n}\n\n// XGEnsembleFromReader')),
ok('validhelper',(LT,VFULL,'	for i := range t.nodes {\n		if err := t.validateNode(i, nFeatures); err != nil {\n			return err\n		}\n	}\n'),(LT,'// validate checks','func (t *lgTree) validateNode(i int, nFeatures int) error {\n	node := &t.nodes[i]\n'+VLOOP.rsplit('	}\n',1)[0].replace('\n	','\n').replace('		if int64(node.Feature)','	if int64(node.Feature)',1)+'	return nil\n}\n\n// validate checks')),
ok('validrange',(LT,'	for i := range t.nodes {\n		node := &t.nodes[i]\n','	for i, node := range t.nodes {\n')),
ok('validint',(LT,'int64(node.Feature) >= int64(nFeatures)','int(node.Feature) >= nFeatures'),(LT,'int64(node.Right) != int64(i)+1 || int64(node.Right) >= int64(len(t.nodes))','int(node.Right) != i+1 || int(node.Right) >= len(t.nodes)')),
ok('validswitch',(LT,'		if node.Flags&rightLeaf > 0 {\n			if int64(node.Right) >= int64(len(t.leafValues)) {\n				return fmt.Errorf("node %d: wrong right leaf index %d", i, node.Right)\n			}\n		} else if int64(node.Right) != int64(i)+1','		if node.Flags&rightLeaf != 0 {\n			if uint64(node.Right) >= uint64(len(t.leafValues)) {\n				return fmt.Errorf("node %d: wrong right leaf index %d", i, node.Right)\n			}\n		} else if int64(node.Right) != int64(i+1)')),
ok('objswitch',(LG,'		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {\n','		isLog := false\n		switch objectiveStr {\n		case "poisson", "gamma", "tweedie":\n			isLog = true\n		}\n		if isLog {\n')),
ok('transhelper',(XG,'	var transform transformation.Transform\n	transform = &transformation.TransformRaw{e.nRawOutputGroups}\n	if loadTransformation {\n		if header.NameObj == "binary:logistic" {\n			if e.nRawOutputGroups != 1 {\n				return nil, fmt.Errorf("got objective \'%s\' with %d output groups", header.NameObj, e.nRawOutputGroups)\n			}\n			transform = &transformation.TransformLogistic{}\n		} else {\n			return nil, fmt.Errorf("unknown transformation function \'%s\'", header.NameObj)\n		}\n	}\n','	transform, err := xgTransform(header.NameObj, e.nRawOutputGroups, loadTransformation)\n	if err != nil {\n		return nil, err\n	}\n'),(XG,'// XGEnsembleFromReader','func xgTransform(objective string, n int, load bool) (transformation.Transform, error) {\n	if !load {\n		return &transformation.TransformRaw{n}, nil\n	}\n	if objective != "binary:logistic" {\n		return nil, fmt.Errorf("unknown transformation function \'%s\'", objective)\n	}\n	if n != 1 {\n		return nil, fmt.Errorf("got objective \'%s\' with %d output groups", objective, n)\n	}\n	return &transformation.TransformLogistic{}, nil\n}\n\n// XGEnsembleFromReader')),
ok('skbase',(SK,'	e.nRawOutputGroups = gbdt.NClasses\n	if e.nRawOutputGroups == 2 {\n		e.nRawOutputGroups = 1\n	}\n','	switch gbdt.NClasses {\n	case 2:\n		e.nRawOutputGroups = 1\n	default:\n		e.nRawOutputGroups = gbdt.NClasses\n	}\n')),
ok('numfeatures',(XG,'	e.MaxFeatureIdx = int(header.Param.NumFeatures) - 1\n','	numFeatures := int(header.Param.NumFeatures)\n	e.MaxFeatureIdx = numFeatures - 1\n')),
ok('fields',(LG,'	treeSizes := strings.Split(treeSizesStr, " ")\n\n	// NOTE: we rely on the fact that size of tree_sizes data is equal to number of trees\n	nTrees := len(treeSizes)\n','	nTrees := len(strings.Split(treeSizesStr, " "))\n')),
ok('prealloc',(XG,'	e.Trees = make([]lgTree, 0, nTrees)\n','	e.Trees = make([]lgTree, nTrees)\n'),(XG,'		e.Trees = append(e.Trees, tree)\n','		e.Trees[i] = tree\n')),
ok('order',(XG,'	if origModel.Param.NumRoots != 1 {\n		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)\n	}\n	if len(origModel.TreeInfo) != int(origModel.Param.NumTrees) {\n		return nil, fmt.Errorf("TreeInfo size should be %d (got %d)",\n			int(origModel.Param.NumTrees),\n			len(origModel.TreeInfo))\n	}\n','	if n := int(origModel.Param.NumTrees); len(origModel.TreeInfo) != n {\n		return nil, fmt.Errorf("TreeInfo size should be %d (got %d)", n, len(origModel.TreeInfo))\n	}\n	if origModel.Param.NumRoots != 1 {\n		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)\n	}\n')),
ok('skflat',(SK,'	e.Trees = make([]lgTree, 0, gbdt.NEstimators*gbdt.NClasses)\n','	e.Trees = make([]lgTree, 0, len(gbdt.Estimators))\n')),
]

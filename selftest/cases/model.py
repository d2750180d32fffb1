LG='lgensemble_io.go'; XG='xgensemble_io.go'; XL='xgblinear_io.go'; SK='skensemble_io.go'; LT='lgtree.go'; L='leaves.go'; LE='lgensemble.go'; XE='xgensemble.go'; XLE='xgblinear.go'
def b16(n,*e): return dict(name='tc-'+n,edits=list(e),bug=['C16'])
def b23(n,*e): return dict(name='meta-'+n,edits=list(e),bug=['C23'])
def ok(n,*e): return dict(name='ok-model-'+n,edits=list(e),ok=True)
NL='	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())\n	for estimatorID := 0; estimatorID < e.NEstimators(); estimatorID++ {\n		for groupID := 0; groupID < e.NRawOutputGroups(); groupID++ {\n			nleaves[groupID*e.NEstimators()+estimatorID] = e.Trees[estimatorID*e.NRawOutputGroups()+groupID].nLeaves()\n		}\n	}\n'
RP='	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}\n'
LP='	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}\n'
cases=[
b16('gamma',(LG,'objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie"','objectiveStr == "poisson" || objectiveStr == "tweedie"'),(LG,'!strings.HasPrefix(objectiveStr, "regression")','objectiveStr != "gamma" && !strings.HasPrefix(objectiveStr, "regression")')),
b16('noload',(LG,'loadTransformation && !e.averageOutput','!e.averageOutput')),
b16('xgnoload',(XG,'	if loadTransformation {\n		if header.NameObj == "binary:logistic" {','	if loadTransformation || header.NameObj == "binary:logistic" {\n		if header.NameObj == "binary:logistic" {')),
b16('rawsize',(LG,'	transform = &transformation.TransformRaw{e.nRawOutputGroups}\n	// NOTE','	transform = &transformation.TransformRaw{1}\n	// NOTE')),
b16('softmax1',(LG,'transform = &transformation.TransformSoftmax{objectiveStruct.value}','transform = &transformation.TransformRaw{objectiveStruct.value}')),
b16('logit',(LG,'				transform = &transformation.TransformLogistic{}\n','				transform = &transformation.TransformSoftmax{1}\n')),
b16('l1',(LG,'!strings.HasPrefix(objectiveStr, "regression")','objectiveStr != "regression"'),(LG,'objectiveStr == "poisson" ||','objectiveStr == "poisson" || objectiveStr == "regression_l1" ||')),
b16('linlogit',(XL,'			transform = &transformation.TransformLogistic{}\n','			_ = transform\n')),
b16('jsonsize',(LG,'	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil\n','	return &Ensemble{e, &transformation.TransformRaw{1}}, nil\n')),
b16('sksize',(SK,'&transformation.TransformRaw{e.nRawOutputGroups}','&transformation.TransformRaw{gbdt.NClasses}')),
b16('viewwrap',(L,RP,'	if _, ok := e.transform.(*transformation.TransformRaw); ok {\n		return e\n	}\n'+RP.replace('NRawOutputGroups','NOutputGroups'))),
b16('viewsize',(L,RP,RP.replace('NRawOutputGroups','NOutputGroups'))),
b16('viewkind',(L,RP,'	if e.NRawOutputGroups() == e.NOutputGroups() {\n		return e\n	}\n'+RP)),
b16('viewmut',(L,RP,'	e.transform = &transformation.TransformRaw{e.NRawOutputGroups()}\n	return e\n')),
b16('leafsize',(L,LP,LP.replace('NRawOutputGroups','NOutputGroups'))),
b16('leafsize2',(L,LP,LP.replace(' * e.NEstimators()',''))),
b23('features',(LE,'		return e.MaxFeatureIdx + 1','		return e.MaxFeatureIdx')),
b23('nfeat0',(XG,'e.MaxFeatureIdx = int(header.Param.NumFeatures) - 1','e.MaxFeatureIdx = int(origModel.Param.NumFeature) - 1'),(XG,'	e.BaseScore = float64(header.Param.BaseScore)\n\n	// reading gbtree\n	origModel, err := xgbin.ReadGBTreeModel(reader)\n	if err != nil {\n		return nil, err\n	}\n','	e.BaseScore = float64(header.Param.BaseScore)\n'),(XG,'	e.MaxFeatureIdx','	// reading gbtree\n	origModel, err := xgbin.ReadGBTreeModel(reader)\n	if err != nil {\n		return nil, err\n	}\n	e.MaxFeatureIdx')),
b23('lin',(XL,'e.NumFeature = int(gbLinearModel.Param.NumFeature)','e.NumFeature = len(gbLinearModel.Weights)/e.nRawOutputGroups - 2'),(XL,'(e.NumFeature+1)*e','(int(gbLinearModel.Param.NumFeature)+1)*e')),
b23('groups',(XG,'int(origModel.Param.NumOutputGroup)\n','int(header.Param.NumClass)\n')),
b23('rfname',(LG,'		e.name = "lightgbm.rf"\n','')),
b23('dartname',(XG,'		e.name = "xgboost.dart"\n','		e.name = "xgboost.gbtree"\n')),
b23('avg',(LG,'		e.averageOutput = true\n','')),
b23('avg2',(LG,'	if params.Contains("average_output") {','	if params.Contains("average_output") && e.nRawOutputGroups == 1 {')),
b23('nest',(XE,'	return len(e.Trees) / e.nRawOutputGroups','	return len(e.Trees)')),
b23('nestens',(L,'	return e.ensembleBaseInterface.NEstimators()','	return e.ensembleBaseInterface.NEstimators() * e.NRawOutputGroups()')),
b23('nout',(L,'	return e.transform.NOutputGroups()','	return e.NRawOutputGroups()')),
b23('nleaves',(LE,NL,NL.replace('groupID*e.NEstimators()+estimatorID','estimatorID*e.NRawOutputGroups()+groupID'))),
b23('nleaves2',(XE,NL,NL.replace('[estimatorID*e.NRawOutputGroups()+groupID]','[groupID*e.NEstimators()+estimatorID]'))),
b23('nleaves3',(XE,NL,NL.replace('estimatorID := 0','estimatorID := 1'))),
b23('skfeat',(SK,'e.MaxFeatureIdx = gbdt.NFeatures - 1','e.MaxFeatureIdx = gbdt.MaxFeatures - 1')),
b23('skgroups',(SK,'	if e.nRawOutputGroups == 2 {','	if e.nRawOutputGroups == 3 {')),
b23('linname',(XLE,'"xgboost.gblinear"','"xgboost.gbtree"')),
ok('viewdirect',(L,RP,'	return &Ensemble{e.ensembleBaseInterface, &transformation.TransformRaw{e.NRawOutputGroups()}}\n')),
ok('viewflat',(L,RP,'	base := e.ensembleBaseInterface\n	if inner, ok := base.(*Ensemble); ok {\n		base = inner.ensembleBaseInterface\n	}\n	return &Ensemble{base, &transformation.TransformRaw{NumOutputGroups: e.NRawOutputGroups()}}\n')),
ok('viewvar',(L,LP,'	n := e.NRawOutputGroups() * e.NEstimators()\n	t := &transformation.TransformLeafIndex{n}\n	return &Ensemble{e, t}\n')),
ok('nleavesvars',(LE,NL,'	nEst := e.NEstimators()\n	nGroups := e.NRawOutputGroups()\n	nleaves := make([]int, nEst*nGroups)\n	for groupID := 0; groupID < nGroups; groupID++ {\n		for estimatorID := 0; estimatorID < nEst; estimatorID++ {\n			tree := &e.Trees[estimatorID*nGroups+groupID]\n			nleaves[groupID*nEst+estimatorID] = tree.nLeaves()\n		}\n	}\n')),
ok('nleavesapp',(LE,NL,'	nEst := e.NEstimators()\n	nGroups := e.NRawOutputGroups()\n	nleaves := make([]int, 0, nEst*nGroups)\n	for groupID := 0; groupID < nGroups; groupID++ {\n		for estimatorID := 0; estimatorID < nEst; estimatorID++ {\n			nleaves = append(nleaves, e.Trees[estimatorID*nGroups+groupID].nLeaves())\n		}\n	}\n')),
ok('nfeat',(LE,'	if e.MaxFeatureIdx >= 0 {\n		return e.MaxFeatureIdx + 1\n	}\n	return 0\n','	if e.MaxFeatureIdx < 0 {\n		return 0\n	}\n	return e.MaxFeatureIdx + 1\n')),
ok('rawhelper',(LG,'	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil\n','	return rawEnsemble(e), nil\n'),(LG,'// LGEnsembleFromJSON','func rawEnsemble(e *lgEnsemble) *Ensemble {\n	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}\n}\n\n// LGEnsembleFromJSON')),
ok('nested',(LG,'		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression\n','		} else if strings.HasPrefix(objectiveStr, "regression") {\n			// no transformation for regression\n		} else {\n')),
ok('rfname',(LG,'	if params.Contains("average_output") {\n		e.name = "lightgbm.rf"\n		e.averageOutput = true\n	}\n','	e.averageOutput = params.Contains("average_output")\n	if e.averageOutput {\n		e.name = "lightgbm.rf"\n	}\n')),
]

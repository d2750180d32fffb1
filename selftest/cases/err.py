LG='lgensemble_io.go'; XG='xgensemble_io.go'; XL='xgblinear_io.go'; SK='skensemble_io.go'; U='util/util.go'; XB='internal/xgbin/xgbin_io.go'; D='internal/pickle/decoder.go'; N='internal/pickle/numpy.go'; S='internal/pickle/sklearn.go'; T='internal/pickle/types.go'
def b(n,*e): return dict(name='err-'+n,edits=list(e),bug=['C14'])
def ok(n,*e): return dict(name='ok-err-'+n,edits=list(e),ok=True)
RET='	if err != nil {\n		return t, err\n	}\n'
cases=[
b('overwritten',(LG,'	splitFeatures, err := params.ToUint32Slice("split_feature")\n'+RET,'	splitFeatures, err := params.ToUint32Slice("split_feature")\n')),
b('stats',(XB,'		stat := RTreeNodeStat{}\n		err := ReadStruct(reader, &stat)\n		if err != nil {\n			return nil, err\n		}\n','		stat := RTreeNodeStat{}\n		ReadStruct(reader, &stat)\n')),
b('partial',(XG,'		if err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		if err := tree.validate','		if err != nil && i == 0 {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		if err := tree.validate')),
b('truncated',(LG,'		if err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n','		if err != nil {\n			break\n		}\n')),
b('default',(S,'	t.NFeatures, err = dict.toInt("n_features_")\n	if err != nil {\n		return\n	}\n','	t.NFeatures, err = dict.toInt("n_features_")\n	if err != nil {\n		t.NFeatures = t.MaxFeatures\n	}\n')),
b('parseclass',(T,'		err = entity.Build(build)\n		if err != nil {\n			return err\n		}\n','		entity.Build(build)\n')),
b('iterate',(N,'		if err != nil {\n			return\n		}\n	}\n	return\n}\n\ntype NumpyDType','		if err != nil {\n			continue\n		}\n	}\n	return nil\n}\n\ntype NumpyDType')),
b('lastonly',(N,'		if err != nil {\n			return\n		}\n	}\n	return\n}\n\ntype NumpyDType','	}\n	return\n}\n\ntype NumpyDType')),
b('rightchild',(LG,'	node.RightChild, err = unmarshalNode(node.RightChildRaw)\n	if err != nil {\n		return nil, err\n	}\n','	node.RightChild, _ = unmarshalNode(node.RightChildRaw)\n')),
b('atoi',(LG,'	value, err := strconv.Atoi(paramTokens[1])\n	if err != nil {\n		return objectiveStruct, errorMsg\n	}\n','	value, _ := strconv.Atoi(paramTokens[1])\n')),
b('zero',(U,'		value, err := strconv.ParseFloat(vStr, 64)\n		if err != nil {\n			return nil, fmt.Errorf("can\'t convert %s: %s", key, err.Error())\n		}\n','		value, err := strconv.ParseFloat(vStr, 64)\n		if err != nil {\n			value = 0\n		}\n')),
b('brk',(U,'		value, err := strconv.ParseUint(vStr, 10, 32)\n		if err != nil {\n			return nil, fmt.Errorf("can\'t convert %s: %s", key, err.Error())\n		}\n','		value, err := strconv.ParseUint(vStr, 10, 32)\n		if err != nil {\n			break\n		}\n')),
b('eofnodes',(XB,'	err := binary.Read(reader, binary.LittleEndian, dst)\n	if err != nil {\n		return err\n	}\n','	err := binary.Read(reader, binary.LittleEndian, dst)\n	if err != nil && err != io.EOF {\n		return err\n	}\n'),(XB,'	"encoding/binary"\n','	"encoding/binary"\n	"io"\n')),
b('readline',(D,'		len, err := d.reader.Read(buf)\n		if err != nil {\n','		len, err := d.reader.Read(buf)\n		if err == io.EOF {\n			return line, nil\n		} else if err != nil {\n')),
b('validate',(SK,'			if err := tree.validate(e.NFeatures()); err != nil {\n				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())\n			}\n','			err = tree.validate(e.NFeatures())\n')),
b('shadow',(N,'	switch x := args[4].(type) {\n	case Build, *Reduce:\n		// if we\'ve got Build or Reduce objects we have a deal with plain data stored in raw byte array\n		err = ParseClass(&a.Data, args[4])\n','	switch x := args[4].(type) {\n	case Build, Reduce:\n		// if we\'ve got Build or Reduce objects we have a deal with plain data stored in raw byte array\n		err := ParseClass(&a.Data, args[4])\n		_ = err\n')),
b('missingtype',(LG,'		missingType, err := convertMissingType(decisionTypes[idx])\n		if err != nil {\n			return node, err\n		}\n','		missingType, _ := convertMissingType(decisionTypes[idx])\n')),
b('nomodel',(XL,'			return nil, fmt.Errorf("unknown transformation function \'%s\'", header.NameObj)\n','			return nil, nil\n')),
b('both',(XG,'		return nil, fmt.Errorf("no trees in model")\n','		return &Ensemble{e, transform}, fmt.Errorf("no trees in model")\n')),
b('paramsread',(U,'		line, err = reader.ReadString(\'\\n\')\n		if err != nil && err != io.EOF {\n			return nil, err\n		}\n		line = strings.TrimSpace(line)\n		if line == "" {\n			break\n		}\n	}\n	return params, nil\n','		line, err = reader.ReadString(\'\\n\')\n		line = strings.TrimSpace(line)\n		if line == "" {\n			break\n		}\n	}\n	return params, nil\n'),(U,'	"io"\n',''))
,
ok('wrap',(XG,'			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		if err := tree.validate','			return nil, treeError(int(i), err)\n		}\n		if err := tree.validate'),(XG,'// XGEnsembleFromReader','func treeError(i int, err error) error {\n	return fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n}\n\n// XGEnsembleFromReader')),
ok('iserr',(U,'err != nil && err != io.EOF','err != nil && !errors.Is(err, io.EOF)'),(U,'	"encoding/binary"\n','	"encoding/binary"\n	"errors"\n')),
ok('oneret',(XB,'	err := binary.Read(reader, binary.LittleEndian, dst)\n	if err != nil {\n		return err\n	}\n	return nil\n','	return binary.Read(reader, binary.LittleEndian, dst)\n')),
ok('header',(XB,'	nameObj, err := ReadString(reader)\n	if err != nil {\n		return nil, err\n	}\n	modelHeader.NameObj = nameObj\n\n	nameGbm, err := ReadString(reader)\n	if err != nil {\n		return nil, err\n	}\n	modelHeader.NameGbm = nameGbm\n','	if modelHeader.NameObj, err = ReadString(reader); err != nil {\n		return nil, err\n	}\n	if modelHeader.NameGbm, err = ReadString(reader); err != nil {\n		return nil, err\n	}\n')),
ok('version',(LG,'	if err := params.Compare("version", "v2"); err != nil {\n		if err := params.Compare("version", "v3"); err != nil {\n			return nil, err\n		}\n	}\n','	version, err := params.ToString("version")\n	if err != nil {\n		return nil, err\n	}\n	if version != "v2" && version != "v3" {\n		return nil, fmt.Errorf("unsupported version %s", version)\n	}\n')),
ok('version2',(LG,'	if err := params.Compare("version", "v2"); err != nil {\n		if err := params.Compare("version", "v3"); err != nil {\n			return nil, err\n		}\n	}\n','	switch params["version"] {\n	case "v2", "v3":\n	default:\n		return nil, fmt.Errorf("unsupported version")\n	}\n')),
ok('counts',(LG,'	if nClasses != nTreePerIteration {\n		return nil, fmt.Errorf("meet case when num_class (%d) != num_tree_per_iteration (%d)", nClasses, nTreePerIteration)\n	} else if nClasses < 1 {\n		return nil, fmt.Errorf("num_class (%d) should be > 0", nClasses)\n	} else if nTreePerIteration < 1 {\n		return nil, fmt.Errorf("num_tree_per_iteration (%d) should be > 0", nTreePerIteration)\n	}\n','	if err := checkClasses(nClasses, nTreePerIteration); err != nil {\n		return nil, err\n	}\n'),(LG,'// LGEnsembleFromReader','func checkClasses(nClasses, nTreePerIteration int) error {\n	if nClasses < 1 {\n		return fmt.Errorf("num_class (%d) should be > 0", nClasses)\n	}\n	if nClasses != nTreePerIteration {\n		return fmt.Errorf("meet case when num_class (%d) != num_tree_per_iteration (%d)", nClasses, nTreePerIteration)\n	}\n	return nil\n}\n\n// LGEnsembleFromReader')),
ok('parsehelper',(LG,'	for i := 0; i < nTrees; i++ {\n		tree, err := lgTreeFromReader(reader)\n		if err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		if err := tree.validate(e.NFeatures()); err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		e.Trees = append(e.Trees, tree)\n	}\n','	for len(e.Trees) < nTrees {\n		tree, err := lgTreeFromReader(reader)\n		if err == nil {\n			err = tree.validate(e.NFeatures())\n		}\n		if err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", len(e.Trees), err.Error())\n		}\n		e.Trees = append(e.Trees, tree)\n	}\n')),
ok('validated',(LG,'		tree, err := unmarshalTree(data.Trees[i])\n		if err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		if err := tree.validate(e.NFeatures()); err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n		e.Trees = append(e.Trees, tree)\n','		if err := e.addJSON(data.Trees[i]); err != nil {\n			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())\n		}\n'),(LG,'// LGEnsembleFromJSON','func (e *lgEnsemble) addJSON(raw []byte) error {\n	tree, err := unmarshalTree(raw)\n	if err != nil {\n		return err\n	}\n	if err := tree.validate(e.NFeatures()); err != nil {\n		return err\n	}\n	e.Trees = append(e.Trees, tree)\n	return nil\n}\n\n// LGEnsembleFromJSON')),
ok('openfile',(XG,'func XGEnsembleFromFile(filename string, loadTransformation bool) (*Ensemble, error) {\n	reader, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	defer reader.Close()\n	bufReader := bufio.NewReader(reader)\n	return XGEnsembleFromReader(bufReader, loadTransformation)\n','func XGEnsembleFromFile(filename string, loadTransformation bool) (*Ensemble, error) {\n	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	model, err := XGEnsembleFromReader(bufio.NewReader(f), loadTransformation)\n	f.Close()\n	return model, err\n')),
]

# refusals of files that are fine
def bug(name, ids, *edits): return dict(name='over-' + name, edits=list(edits), bug=ids)
IO = 'lgensemble_io.go'
cases = [
    bug('lg-leaves', ['C15'], (IO, 'if numLeaves < 1 {', 'if numLeaves < 1 || numLeaves > 65536 {')),
    bug('lg-cat', ['C15'], (IO, '	t.nCategorical = uint32(numCategorical)\n', '	if numCategorical > 1024 {\n		return t, fmt.Errorf("too many categorical splits")\n	}\n	t.nCategorical = uint32(numCategorical)\n')),
    bug('lg-threshold', ['C15'], (IO, '		defaultType := uint8(0)\n		if decisionTypes[idx]&(1<<1) > 0 {', '		if thresholds[idx] > 1e300 {\n			return node, fmt.Errorf("threshold too large")\n		}\n		defaultType := uint8(0)\n		if decisionTypes[idx]&(1<<1) > 0 {')),
    bug('json-cat', ['C15'], (IO, '		nBits := len(tokens)\n', '		nBits := len(tokens)\n		if nBits > 32 {\n			return node, fmt.Errorf("too many categories")\n		}\n')),
    bug('json-missing', ['C15'], (IO, '		threshold, ok := nodeJSON.Threshold.(float64)\n', '		if missingType == missingZero && !nodeJSON.DefaultLeft {\n			return node, fmt.Errorf("zero goes right")\n		}\n		threshold, ok := nodeJSON.Threshold.(float64)\n')),
    bug('json-onehot-zero', ['C15'], (IO, '			catIdx = uint32(value)\n', '			if value <= 0 {\n				return node, fmt.Errorf("wrong category")\n			}\n			catIdx = uint32(value)\n')),
    bug('xg-features', ['C15'], ('xgensemble_io.go', 'origTree.Param.NumFeature > int32(numFeatures)', 'origTree.Param.NumFeature != int32(numFeatures)')),
    bug('xg-nodes', ['C15'], ('xgensemble_io.go', '	if origTree.Param.NumNodes == 0 {', '	if origTree.Param.NumNodes%2 == 0 {')),
    bug('xg-root-right', ['C15'], ('xgensemble_io.go', '		if origNode.CRight < 0 {', '		if origNode.CRight < origNode.CLeft {')),
    bug('sk-leaves', ['C15'], ('skensemble_io.go', 'if numLeaves-1 != numNodes {', 'if numLeaves-1 != numNodes || numLeaves > 1000 {')),
    bug('sk-scale', ['C15'], ('skensemble_io.go', '	numLeaves := 0\n', '	if scale > 1 {\n		return t, fmt.Errorf("wrong learning rate")\n	}\n	numLeaves := 0\n')),
    bug('sk-feature', ['C15'], ('skensemble_io.go', '		refNode := &tree.Tree.Nodes[idx]\n', '		refNode := &tree.Tree.Nodes[idx]\n		if refNode.Feature == 0 && refNode.Threshold == 0 {\n			return node, fmt.Errorf("undefined node")\n		}\n')),
    bug('num-inf', ['C15'], ('util/util.go', '		value, err := strconv.ParseFloat(vStr, 64)\n		if err != nil {', '		value, err := strconv.ParseFloat(vStr, 64)\n		if err != nil || math.IsInf(value, 0) {')),
    bug('lines-dup', ['C15'], ('util/util.go', '			params[tokens[0]] = tokens[1]\n', '			if _, found := params[tokens[0]]; found {\n				return nil, fmt.Errorf("%s is given twice", tokens[0])\n			}\n			params[tokens[0]] = tokens[1]\n')),
    bug('lines-long', ['C15'], ('util/util.go', '		tokens := strings.Split(line, "=")\n', '		if len(line) > 1<<20 {\n			return nil, fmt.Errorf("line too long")\n		}\n		tokens := strings.Split(line, "=")\n')),
    bug('lines-empty', ['C15'], ('util/util.go', '		} else if len(tokens) == 1 {\n', '		} else if len(tokens) == 1 && len(params) > 100 {\n			return nil, fmt.Errorf("unexpected line %s", line)\n		} else if len(tokens) == 1 {\n')),
    bug('wire-string', ['C15'], ('internal/xgbin/xgbin_io.go', '	bytes := make([]byte, size)\n', '	if size > 64 {\n		return "", fmt.Errorf("name too long")\n	}\n	bytes := make([]byte, size)\n'), ('internal/xgbin/xgbin_io.go', '	"encoding/binary"\n', '	"encoding/binary"\n	"fmt"\n')),
    bug('wire-leafvector', ['C15'], ('internal/xgbin/xgbin_io.go', '	if treeModel.Param.SizeLeafVector > 0 {\n', '	if treeModel.Param.SizeLeafVector > 1 {\n		return nil, fmt.Errorf("leaf vectors are not supported")\n	}\n	if treeModel.Param.SizeLeafVector > 0 {\n'), ('internal/xgbin/xgbin_io.go', '	"encoding/binary"\n', '	"encoding/binary"\n	"fmt"\n')),
    bug('wire-deleted', ['C15'], ('internal/xgbin/xgbin_io.go', '	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)\n', '	if treeModel.Param.NumDeleted != 0 {\n		return nil, fmt.Errorf("deleted nodes")\n	}\n	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)\n'), ('internal/xgbin/xgbin_io.go', '	"encoding/binary"\n', '	"encoding/binary"\n	"fmt"\n')),
    bug('json-node', ['C15'], (IO, '		value, ok := data["leaf_value"].(float64)\n		if !ok {', '		value, ok := data["leaf_value"].(float64)\n		if !ok || len(data) > 3 {')),
    bug('pk-depth', ['C19'], ('internal/pickle/decoder.go', '		nInstr++\n', '		nInstr++\n		if nInstr > 1<<20 {\n			return nil, fmt.Errorf("pickle too long")\n		}\n')),
    bug('pk-int', ['C19'], ('internal/pickle/decoder.go', '			v, err := strconv.Atoi(string(line))\n			if err != nil {\n', '			v, err := strconv.Atoi(string(line))\n			if err == nil && v < 0 {\n				return nil, fmt.Errorf("negative number")\n			}\n			if err != nil {\n')),
    bug('sk-types-lr', ['C20'], ('internal/pickle/sklearn.go', '	obj, err := dict.value("loss")\n', '	if t.LearningRate > 1 {\n		return fmt.Errorf("unexpected learning rate %v", t.LearningRate)\n	}\n	obj, err := dict.value("loss")\n')),
]

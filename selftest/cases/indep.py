L='lgensemble_io.go'; X='xgensemble_io.go'; K='skensemble_io.go'; M='mat/mat_io.go'; U='util/util.go'; P='internal/pickle/decoder.go'
cases=[
dict(name='ind-scratch-nodes',bug=['C26'],edits=[
 (L,'func lgTreeFromReader(','var scratch []uint32\n\nfunc lgTreeFromReader('),
 (L,'	t := lgTree{}','	t := lgTree{}\n	scratch = scratch[:0]')]),
dict(name='ind-scratch-records',bug=['C26'],edits=[
 (M,'func readFromCsv(','var csvRecords = make([]libsvmRecord, 0)\n\nfunc readFromCsv('),
 (M,'	records := make([]libsvmRecord, 0)\n	rows := 0\n	startIndex := 0\n	if skipFirstColumn {\n		startIndex = 1\n	}\n	for {\n		line, err := reader.ReadString(\'\\n\')\n		if err != nil && err != io.EOF {\n			return err\n		}\n		// leading','	records := csvRecords\n	defer func() { csvRecords = records }()\n	rows := 0\n	startIndex := 0\n	if skipFirstColumn {\n		startIndex = 1\n	}\n	for {\n		line, err := reader.ReadString(\'\\n\')\n		if err != nil && err != io.EOF {\n			return err\n		}\n		// leading')]),
dict(name='ind-pool',bug=['C26'],edits=[
 (M,'func readFromCsv(','var pool sync.Pool\n\nfunc readFromCsv('),
 (M,'import (','import (\n	"sync"'),
 (M,'	records := make([]libsvmRecord, 0)\n	rows := 0\n	startIndex := 0\n	if skipFirstColumn {\n		startIndex = 1\n	}\n	for {\n		line, err := reader.ReadString(\'\\n\')\n		if err != nil && err != io.EOF {\n			return err\n		}\n		// leading','	records, _ := pool.Get().([]libsvmRecord)\n	defer pool.Put(records)\n	rows := 0\n	startIndex := 0\n	if skipFirstColumn {\n		startIndex = 1\n	}\n	for {\n		line, err := reader.ReadString(\'\\n\')\n		if err != nil && err != io.EOF {\n			return err\n		}\n		// leading')]),
dict(name='ind-cache',bug=['C26'],edits=[
 (X,'func XGEnsembleFromFile(','var models = map[string]*Ensemble{}\n\nfunc XGEnsembleFromFile('),
 (X,'	reader, err := os.Open(filename)','	if m, ok := models[filename]; ok {\n		return m, nil\n	}\n	reader, err := os.Open(filename)'),
 (X,'	return XGEnsembleFromReader(bufReader, loadTransformation)','	m, err := XGEnsembleFromReader(bufReader, loadTransformation)\n	if err == nil {\n		models[filename] = m\n	}\n	return m, err')]),
dict(name='ind-env',bug=['C26'],edits=[
 (X,'	reader, err := os.Open(filename)','	if os.Getenv("LEAVES_RAW") != "" {\n		loadTransformation = false\n	}\n	reader, err := os.Open(filename)')]),
dict(name='ind-maporder-last',bug=['C26'],edits=[
 (U,'	_, isFound := (*p)[key]\n	return isFound','	isFound := false\n	for k, v := range *p {\n		if strings.HasPrefix(k, key) {\n			isFound = v != ""\n		}\n	}\n	return isFound')]),
dict(name='ind-maporder-first',bug=['C26'],edits=[
 (U,'func (p *stringParams) ToString(key string) (string, error) {','func (p *stringParams) First(key string) string {\n	for k, v := range *p {\n		if strings.HasPrefix(k, key) {\n			return v\n		}\n	}\n	return ""\n}\n\nfunc (p *stringParams) ToString(key string) (string, error) {')]),
dict(name='ok-ind-table',ok=True,edits=[
 (X,'func XGEnsembleFromFile(','var known = map[string]bool{"a": true}\n\nfunc isKnown(s string) bool {\n	for k := range known {\n		if k == s {\n			return true\n		}\n	}\n	return false\n}\n\n// IsKnown helps\nfunc IsKnown(s string) bool { return isKnown(s) }\n\nfunc XGEnsembleFromFile(')]),
dict(name='ok-ind-table-val',ok=True,edits=[
 (X,'func XGEnsembleFromFile(','var known = map[string]int{"a": 3}\n\n// Known helps\nfunc Known(s string) int {\n	for k, v := range known {\n		if k == s {\n			return v\n		}\n	}\n	return 0\n}\n\nfunc XGEnsembleFromFile(')]),
dict(name='ok-ind-sorted',ok=True,edits=[
 (X,'func XGEnsembleFromFile(','var errUnknown = fmt.Errorf("unknown")\nvar names = [...]string{"a", "b"}\n\n// Known helps\nfunc Known(s string) error {\n	for _, v := range names {\n		if v == s {\n			return nil\n		}\n	}\n	return errUnknown\n}\n\nfunc XGEnsembleFromFile(')]),
]

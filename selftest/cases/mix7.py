# changes that alter the program, but no property: sizes, messages, additions
L = 'leaves.go'; LG = 'lgensemble.go'; IO = 'lgensemble_io.go'; TR = 'lgtree.go'; XG = 'xgensemble.go'; XI = 'xgensemble_io.go'
XL = 'xgblinear.go'; XLI = 'xgblinear_io.go'; SK = 'skensemble_io.go'; U = 'util/util.go'; TF = 'transformation/'; M = 'mat/mat_io.go'; MM = 'mat/mat.go'
R = '/repo/'
l = open(R+L).read(); io = open(R+IO).read(); m = open(R+M).read()
def ok(name, *edits): return dict(name='ok-mix7-' + name, edits=list(edits), ok=True)
def every(f, old, new):
    src = open(R+f).read()
    out = []
    for _ in range(src.count(old)): out.append((f, old, new))
    return out
cases = [
ok('batch-64', (L, 'const BatchSize = 16', 'const BatchSize = 64')),
ok('batch-1', (L, 'const BatchSize = 16', 'const BatchSize = 1')),
ok('numcpu', *every(L, 'runtime.GOMAXPROCS(0)', 'runtime.NumCPU()')),
ok('messages', (L, 'fmt.Errorf("incorrect number of features (%d)", len(fvals))', 'fmt.Errorf("expected at least %d features, got %d", e.NFeatures(), len(fvals))'), (IO, 'fmt.Errorf("num_leaves < 1")', 'fmt.Errorf("tree should have at least one leaf (got %d)", numLeaves)'), (SK, 'fmt.Errorf("no trees in file")', 'fmt.Errorf("no trees in file (%s)", e.name)')),
ok('wrap', *every(IO, 'fmt.Errorf("error while reading %d tree: %s", i, err.Error())', 'fmt.Errorf("error while reading %d tree: %w", i, err)')),
ok('bufsize', *(every(IO, 'bufio.NewReader(reader)', 'bufio.NewReaderSize(reader, 1<<20)') + every(XI, 'bufio.NewReader(reader)', 'bufio.NewReaderSize(reader, 1<<20)'))),
ok('leafvalues', (TR, 'return len(t.nodes) + 1\n', 'return len(t.leafValues)\n')),
ok('stringer', (L, '// NEstimators returns number of est', '''// String describes the model
func (e *Ensemble) String() string {
	return fmt.Sprintf("%s: %d estimators, %d features, %d outputs (%s)",
		e.Name(), e.NEstimators(), e.NFeatures(), e.NOutputGroups(), e.Transformation().Name())
}

// NEstimators returns number of est''')),
ok('ntrees', (L, '	NLeaves() []int\n', '	NLeaves() []int\n	nTrees() int\n'), (LG, 'func (e *lgEnsemble) Name() string', 'func (e *lgEnsemble) nTrees() int {\n	return len(e.Trees)\n}\n\nfunc (e *lgEnsemble) Name() string'), (XG, 'func (e *xgEnsemble) Name() string', 'func (e *xgEnsemble) nTrees() int {\n	return len(e.Trees)\n}\n\nfunc (e *xgEnsemble) Name() string'), (XL, 'func (e *xgLinear) Name() string', 'func (e *xgLinear) nTrees() int {\n	return 0\n}\n\nfunc (e *xgLinear) Name() string')),
ok('predict-batch', (L, '// NEstimators returns number of est', '''// PredictDenseAll is PredictDense with a result of its own, all estimators and
// all processors
func (e *Ensemble) PredictDenseAll(vals []float64, nrows int, ncols int) ([]float64, error) {
	predictions := make([]float64, nrows*e.NOutputGroups())
	if err := e.PredictDense(vals, nrows, ncols, predictions, 0, -1); err != nil {
		return nil, err
	}
	return predictions, nil
}

// NEstimators returns number of est''')),
ok('load-any', (L, '// NEstimators returns number of est', '''// FromFile loads a LightGBM model in text or JSON format
func FromFile(filename string, isJSON bool) (*Ensemble, error) {
	if !isJSON {
		return LGEnsembleFromFile(filename, false)
	}
	file, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return LGEnsembleFromJSON(file, false)
}

// NEstimators returns number of est'''), (L, '	"math"\n', '	"math"\n	"os"\n')),
ok('mat-at', (MM, '// CSRMat is Compressed Sparse Row matrix data', '''// At returns the value in row `row` and column `col`
func (m *DenseMat) At(row int, col int) float64 {
	return m.Values[row*m.Cols+col]
}

// Set changes the value in row `row` and column `col`
func (m *DenseMat) Set(row int, col int, value float64) {
	m.Values[row*m.Cols+col] = value
}

// CSRMat is Compressed Sparse Row matrix data''')),
ok('util-max', (U, 'func MinInt(a, b int) int {', '''func MaxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func MinInt(a, b int) int {''')),
ok('debug-const', (L, 'const BatchSize = 16', 'const BatchSize = 16\n\n// Version of the package\nvar Version = "0.8.1"')),
ok('prealloc-mat', (M, '	records := make([]libsvmRecord, 0)\n	startIndex := 0', '	records := make([]libsvmRecord, 0, 128)\n	startIndex := 0'), (M, '	mat.RowHeaders = append(mat.RowHeaders, 0)\n', '	mat.RowHeaders = append(make([]int, 0, 1024), 0)\n')),
ok('check-nil', (L, '	nRows := 1\n	if len(predictions)', '	nRows := 1\n	_ = fvals\n	if len(predictions)')),
ok('noop', (L, '	nRows := len(indptr) - 1\n', '	nRows := len(indptr) - 1\n	_ = nRows + 0\n'), (TR, '	i1 := pos / 32\n', '	i1 := pos / 32\n	_ = i1\n'), (XI, '	t := lgTree{}\n', '	t := lgTree{}\n	if false {\n		t.nCategorical++\n	}\n')),
ok('sig-stable', (U, '	return 1.0 / (1.0 + math.Exp(-x))\n', '''	if x < 0 {
		e := math.Exp(x)
		return e / (1.0 + e)
	}
	return 1.0 / (1.0 + math.Exp(-x))
''')),
ok('file-error', (IO, '''	reader, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
''', '''	reader, err := os.Open(filename)
	if err != nil {
		return nil, fmt.Errorf("can't open the model: %w", err)
	}
''')),
ok('limit-trees', (IO, '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := unm', '	e.Trees = make([]lgTree, 0)\n	for i := 0; i < nTrees; i++ {\n		tree, err := unm')),
ok('generics-free', (U, 'type stringParams map[string]string', '// stringParams are the parameters of a block of a text model\ntype stringParams map[string]string\n\nfunc (p stringParams) keys() []string {\n	out := make([]string, 0, len(p))\n	for key := range p {\n		out = append(out, key)\n	}\n	sort.Strings(out)\n	return out\n}'), (U, '	"strconv"\n', '	"sort"\n	"strconv"\n')),
]

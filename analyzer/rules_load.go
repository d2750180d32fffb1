package main

// C13, C15, C16, C23: what a loaded model is, as a function of the fields of
// the file. Loaders are evaluated with the primitive readers and the tree
// converters left symbolic.

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// treeLoader: a function that converts one tree, the innermost one that
// takes it in the form of the file.
func (p *Program) treeLoader(f *ssa.Function) bool {
	if !p.treeResult(f) {
		return false
	}
	if v, ok := p.treeFns[f]; ok {
		return v
	}
	v := p.takesTree(f)
	for g := range p.effects().reach(f) {
		v = v && (g == f || !p.treeResult(g) || !p.takesTree(g))
	}
	if p.treeFns == nil {
		p.treeFns = map[*ssa.Function]bool{}
	}
	p.treeFns[f] = v
	return v
}

// treeResult: the result is a tree and an error.
func (p *Program) treeResult(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 2 || !errResult(f.Signature) {
		return false
	}
	t := r.At(0).Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.Identical(t, p.typ("", "lgTree"))
}

// takesTree: a tree of the file is a parameter, or f reads one.
func (p *Program) takesTree(f *ssa.Function) bool {
	for i, q := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		t := q.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if types.Identical(t, p.typ("", "lgTree")) {
			return false // it goes on with a tree that another one began
		}
	}
	for _, q := range f.Params {
		switch s := q.Type().String(); {
		case strings.HasSuffix(s, "xgbin.TreeModel"), strings.HasSuffix(s, "pickle.SklearnDecisionTreeRegressor"):
			return true
		}
	}
	raw := false
	for _, q := range f.Params {
		raw = raw || rawInput(q.Type())
	}
	if !raw {
		return false // the rest of one that has read the tree
	}
	for g := range p.effects().reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if h := cc.Common().StaticCallee(); h != nil {
						switch sourceName(h.RelString(nil)) {
						case "P", "J":
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// rawInput: text, bytes or a reader of them.
func rawInput(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.String)
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Interface:
		return !types.Identical(t, errType)
	case *types.Pointer:
		n, ok := u.Elem().(*types.Named)
		return ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return false
}

// sourceFn: functions of the module left symbolic when a loader is
// evaluated: tree converters, and steps outside the root package that loop or
// take the input itself.
func (p *Program) sourceFn() func(*ssa.Function) bool {
	step := p.stepFn()
	return func(f *ssa.Function) bool {
		if !step(f) {
			return false
		}
		if p.treeLoader(f) {
			return true
		}
		if f.Pkg == nil || f.Pkg.Pkg.Path() == modPath {
			return p.recursive(f)
		}
		if len(buildForest(f).loops) > 0 || p.recursive(f) {
			return true
		}
		if v := f.Signature.Recv(); v != nil && strings.HasSuffix(v.Type().String(), "util.stringParams") && f.Signature.Results().Len() == 2 {
			if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
				return true // a list of numbers
			}
		}
		for _, q := range f.Params {
			switch q.Type().String() {
			case "*bufio.Reader", "io.Reader", "interface{}", "any", "[]byte":
				return true
			}
		}
		if f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 {
			return true // Decode()
		}
		return false
	}
}

func (p *Program) recursive(f *ssa.Function) bool {
	ef := p.effects()
	s := ef.sum[f]
	if s == nil {
		return false
	}
	for g := range s.calls {
		if _, ok := ef.reach(g)[f]; ok {
			return true
		}
	}
	return false
}

// LRun: one exported loader, evaluated.
type LRun struct {
	facts []*Node // known relations between numbers
	p     *Program
	f     *ssa.Function
	e     *Engine
	rets  []retEdge
	kind  string // text, json, gbtree, gblinear, sklearn
	roots map[*Term]string
	outs  map[string]string // call sites that fill a value
	tags  map[string]string
	srcs  map[string]*Effect
	rw    *rewriter
	load  *Node // loadTransformation
	memo  map[*ssa.Function]bool
}

// canonical names of what is read
func sourceName(n string) string {
	switch n {
	case modPath + "/util.ReadParamsUntilBlank":
		return "P"
	case modPath + "/internal/xgbin.ReadModelHeader":
		return "H"
	case modPath + "/internal/xgbin.ReadGBTreeModel":
		return "M"
	case modPath + "/internal/xgbin.ReadGBLinearModel":
		return "L"
	case modPath + "/internal/xgbin.ReadFloat32Slice":
		return "W"
	case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
		return "J"
	case modPath + "/internal/pickle.ParseClass":
		return "K"
	}
	return ""
}

func baseObj(t *Term) *Term {
	for {
		switch t.op {
		case "iface":
			t = t.args[0]
		default:
			return t
		}
	}
}

func (p *Program) loaderRun(f *ssa.Function) *LRun { return p.loaderRunX(f, nil) }

// loaderRunX also leaves calls of other functions symbolic.
func (p *Program) loaderRunX(f *ssa.Function, also func(*ssa.Function) bool) *LRun {
	r := &LRun{p: p, f: f, roots: map[*Term]string{}, outs: map[string]string{}, tags: map[string]string{}, srcs: map[string]*Effect{}}
	src := p.sourceFn()
	r.e, r.rets = p.runRoot(f, func(g *ssa.Function) bool { return g != f && (src(g) || also != nil && also(g)) })
	for _, x := range r.e.effects {
		if x.kind != "call" && x.kind != "invoke" || x.res == nil {
			continue
		}
		n := sourceName(x.name)
		if n == "" {
			continue
		}
		if r.srcs[n] != nil {
			panic(undecided("two calls of " + shortName(x.name) + " in " + fname(f)))
		}
		r.srcs[n] = x
		switch n {
		case "J", "K":
			k := 0
			if x.name == "encoding/json.Unmarshal" || x.name == "(*encoding/json.Decoder).Decode" {
				k = len(x.args) - 1
			}
			o := one(x.args[k])
			if o == nil {
				panic(undecided("target of " + shortName(x.name)))
			}
			_ = o
			r.outs["@"+x.ctx] = n
		default:
			tv, ok := x.res.(*TupleVal)
			if !ok || one(tv.v[0]) == nil {
				panic(undecided("result of " + shortName(x.name)))
			}
			r.roots[one(tv.v[0])] = n
		}
	}
	switch {
	case r.srcs["P"] != nil:
		r.kind = "text"
	case r.srcs["J"] != nil:
		r.kind = "json"
	case r.srcs["L"] != nil:
		r.kind = "gblinear"
	case r.srcs["M"] != nil:
		r.kind = "gbtree"
	case r.srcs["K"] != nil:
		r.kind = "sklearn"
	}
	r.load = bd.F
	for _, q := range f.Params {
		if isBoolT(q.Type()) {
			r.load = asBool(r.e.symParams(f)[paramIdx(f, q)])
		}
	}
	r.rw = newRewriter(r.canon)
	return r
}

func paramIdx(f *ssa.Function, q *ssa.Parameter) int {
	for i, x := range f.Params {
		if x == q {
			return i
		}
	}
	return -1
}

// pathOf names an address or value below something read from the file.
func (r *LRun) pathOf(a *Term) (string, bool) {
	switch a.op {
	case "sym":
		if r.isRootName(a.aux) || hasPfx(a.aux, "P.", "H.", "M.", "L.", "J.", "K.") {
			return a.aux, true
		}
	case "field", "fieldof":
		s, ok := r.pathOf(a.args[0])
		if !ok {
			return "", false
		}
		ty := a.args[0].typ
		if pt, ok := ty.Underlying().(*types.Pointer); ok {
			ty = pt.Elem()
		}
		return s + "." + r.fieldName(s, ty, a.aux), true
	}
	return "", false
}

// fieldName: fields decoded from JSON go by their name in the file.
func (r *LRun) fieldName(path string, t types.Type, name string) string {
	if !hasPfx(path, "J") {
		return name
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				if tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; tag != "" {
					return tag
				}
			}
		}
	}
	return name
}

func symOf(name string, typ types.Type) *Term {
	if typ != nil && isInt(typ) {
		typ = types.Typ[types.Int]
	}
	return mkTerm("sym", name, typ)
}

// canon names what was read from the file; integer conversions are taken as
// the identity (sizes fit in 31 bits).
func (r *LRun) canon(t *Term) *Term {
	if n, ok := r.roots[t]; ok {
		return symOf(n, t.typ)
	}
	switch t.op {
	case "out":
		if i := strings.Index(t.aux, "@"); i >= 0 {
			if n, ok := r.outs[t.aux[i:]]; ok {
				if t.typ != nil && structOf(structPtr(t.typ)) != nil {
					return mkTerm("sym", n, t.typ, strTerm(t.typ.String())) // one for each decoded type
				}
				return symOf(n, t.typ)
			}
		}
	case "fieldof":
		if n, ok := r.pathOf(t); ok {
			return symOf(n, t.typ)
		}
	case "len":
		if r.kind == "gbtree" && t.args[0] == symOf("M.Trees", nil) {
			return r.i("M.Param.NumTrees") // C18
		}
		return r.e.grown(t.args[0])
	case "load":
		if n, ok := r.pathOf(t.args[0]); ok {
			if o, seen := r.tags[n]; seen && o != t.aux {
				panic(undecided("field " + n + " is written after it was read"))
			}
			r.tags[n] = t.aux
			return symOf(n, t.typ)
		}
		// an element of a list read from the file
		if a := t.args[0]; a.op == "field" || a.op == "index" {
			if b, ok := r.stable(a); ok {
				return mkTerm("load", "", t.typ, b)
			}
		}
		return nil
	case "lookup":
		if t.args[0].op == "sym" && t.args[0].aux == "P" {
			if k, ok := t.args[1].strVal(); ok {
				return symOf("P."+k, t.typ)
			}
		}
	case "has":
		if t.args[0].op == "sym" && t.args[0].aux == "P" {
			if k, ok := t.args[1].strVal(); ok {
				return symOf("has P."+k, t.typ)
			}
		}
	case "res":
		c := t.args[0]
		if c.op == "call" && len(c.args) > 0 && (c.aux == "strconv.Atoi" || c.aux == "strconv.ParseInt") && c.args[0].op == "sym" && hasPfx(c.args[0].aux, "P.") {
			if c.aux == "strconv.ParseInt" {
				if b, ok := c.args[1].intVal(); !ok || b != 10 {
					return nil
				}
			}
			if t.aux == "0" {
				return symOf("int "+c.args[0].aux, types.Typ[types.Int])
			}
			return symOf("err "+c.args[0].aux, t.typ)
		}
	case "conv":
		if isInt(t.typ) && isInt(t.args[0].typ) {
			return t.args[0]
		}
		if isInt(t.typ) && isFloat(t.args[0].typ) {
			return convTerm(t.args[0], t.args[0].typ, types.Typ[types.Int64])
		}
	}
	return nil
}

// stable: an address below a list read from the file.
func (r *LRun) stable(a *Term) (*Term, bool) {
	switch a.op {
	case "sym":
		return a, strings.Contains(a.aux, ".") || r.isRootName(a.aux)
	case "field":
		if b, ok := r.stable(a.args[0]); ok {
			return mkTerm("field", a.aux, a.typ, b), true
		}
	case "index":
		if b, ok := r.stable(a.args[0]); ok {
			return mkTerm("index", "", a.typ, b, a.args[1]), true
		}
	case "load":
		if a.aux == "" {
			if _, ok := r.stable(a.args[0]); ok {
				return a, true
			}
		}
	}
	return nil, false
}

func (r *LRun) isRootName(s string) bool { return r.srcs[s] != nil }

func (r *LRun) node(g *Node) *Node { return r.rw.node(g) }
func (r *LRun) term(t *Term) *Term { return r.rw.term(t) }

func (r *LRun) val(v Val) Val {
	var gs []*Node
	var vs []Val
	for _, a := range altsOf(v) {
		gs = append(gs, r.node(a.g))
		vs = append(vs, sc(r.term(a.t)))
	}
	return mergeVals(gs, vs)
}

// ---- what a successful load implies -------------------------------------------------

type cond struct {
	what string
	n    *Node
}

func (r *LRun) i(name string) *Term { return symOf(name, types.Typ[types.Int]) }
func (r *LRun) s(name string) *Term { return symOf(name, types.Typ[types.String]) }
func (r *LRun) has(key string) *Node {
	return bd.atom(symOf("has P."+key, types.Typ[types.Bool]))
}

func cmpInt(op token.Token, e *Engine, a, b Val) *Node {
	return asBool(e.binop(op, a, b, types.Typ[types.Int], types.Typ[types.Bool]))
}

func (r *LRun) cmp(op token.Token, a, b Val) *Node { return cmpInt(op, r.e, a, b) }

type lret struct {
	g *Node // canonical guard
	q retEdge
}

func (r *LRun) split() (ok, bad []lret) {
	for _, q := range r.rets {
		nl := errIsNil(lastVal(q.val))
		if g := r.node(and(q.g, nl)); !unsat(g) {
			ok = append(ok, lret{g, q})
		}
		if g := r.node(and(q.g, not(nl))); !unsat(g) {
			bad = append(bad, lret{g, q})
		}
	}
	return
}

// groups: number of raw outputs stated by the file.
func (r *LRun) groups() Val {
	switch r.kind {
	case "text":
		return sc(r.i("int P.num_class"))
	case "json":
		return sc(r.i("J.num_class"))
	case "gbtree":
		return sc(r.i("M.Param.NumOutputGroup"))
	case "gblinear":
		return sc(r.i("L.Param.NumOutputGroup"))
	case "sklearn":
		n := r.i("K.NClasses")
		two := eq0(polyOf(sub(n, intTerm(2))))
		return mergeVals([]*Node{two, not(two)}, []Val{sc(intTerm(1)), sc(n)})
	}
	panic(undecided("the format read by " + fname(r.f)))
}

func (r *LRun) features() *Term {
	switch r.kind {
	case "text":
		return add(r.i("int P.max_feature_idx"), intTerm(1))
	case "json":
		return add(r.i("J.max_feature_idx"), intTerm(1))
	case "gbtree":
		return r.i("H.Param.NumFeatures")
	case "gblinear":
		return r.i("L.Param.NumFeature")
	}
	return r.i("K.NFeatures")
}

// treeCounts: terms for the number of trees in the file.
func (r *LRun) treeCounts() []Val {
	switch r.kind {
	case "text":
		s := r.s("P.tree_sizes")
		ss := types.NewSlice(types.Typ[types.String])
		return []Val{
			sc(lenTerm(mkTerm("call", "strings.Split", ss, s, strTerm(" ")))),
			sc(lenTerm(mkTerm("call", "strings.Fields", ss, s))),
			sc(add(mkTerm("call", "strings.Count", types.Typ[types.Int], s, strTerm(" ")), intTerm(1))),
		}
	case "json":
		return []Val{sc(lenTerm(symOf("J.tree_info", nil)))}
	case "gbtree":
		return []Val{sc(r.i("M.Param.NumTrees")), sc(lenTerm(symOf("M.TreeInfo", nil)))}
	case "sklearn":
		return []Val{sc(lenTerm(symOf("K.Estimators", nil))), sc(r.i("K.NEstimators"))}
	}
	return nil
}

func (r *LRun) mod(a, b Val) Val {
	return r.e.binop(token.REM, a, b, types.Typ[types.Int], types.Typ[types.Int])
}

func (r *LRun) zero(v Val) *Node { return r.cmp(token.EQL, v, sc(intTerm(0))) }

// conditions of a supported file (each one necessary).
func (r *LRun) conds() []cond {
	var cs []cond
	a := func(what string, n *Node) { cs = append(cs, cond{what, n}) }
	G := r.groups()
	one1 := sc(intTerm(1))
	str := func(name, v string) *Node { return genEq(r.s(name), strTerm(v)) }
	eq := func(x, y string) *Node { return r.cmp(token.EQL, sc(r.i(x)), sc(r.i(y))) }
	pos := func() { a("at least one output", r.cmp(token.GEQ, G, one1)) }
	T := r.treeCounts()
	logit := func(n string) {
		a("the transformation is requested for binary:logistic with one output only", implies(r.load, and(str(n, "binary:logistic"), r.cmp(token.EQL, G, one1))))
	}
	switch r.kind {
	case "text":
		a("the format version is v2 or v3", or(str("P.version", "v2"), str("P.version", "v3")))
		for _, k := range []string{"version", "num_class", "num_tree_per_iteration", "max_feature_idx", "tree_sizes"} {
			a("field "+k+" is present", r.has(k))
		}
		a("as many trees per iteration as classes", eq("int P.num_class", "int P.num_tree_per_iteration"))
		pos()
	case "json":
		a("no transformation is requested", not(r.load))
		a("the file describes trees", str("J.name", "tree"))
		a("the format version is v2", str("J.version", "v2"))
		a("as many trees per iteration as classes", eq("J.num_class", "J.num_tree_per_iteration"))
		pos()
		a("there are trees", not(r.zero(T[0])))
		a("the number of trees is a multiple of the number of outputs", r.zero(r.mod(T[0], G)))
	case "gbtree":
		a("the booster is gbtree or dart", or(str("H.NameGbm", "gbtree"), str("H.NameGbm", "dart")))
		a("there are features", not(r.zero(sc(r.i("H.Param.NumFeatures")))))
		a("the trees use no more features than the header states", r.cmp(token.LEQ, sc(r.i("M.Param.NumFeature")), sc(r.i("H.Param.NumFeatures"))))
		a("a dropout model has one weight per tree", implies(str("H.NameGbm", "dart"), r.cmp(token.EQL, sc(lenTerm(symOf("W", nil))), T[0])))
		pos()
		a("the number of trees is a multiple of the number of outputs", r.zero(r.mod(T[0], G)))
		a("trees have one root", r.cmp(token.EQL, sc(r.i("M.Param.NumRoots")), one1))
		a("every tree has an output group", r.cmp(token.EQL, T[1], T[0]))
		a("there are trees", not(r.zero(T[0])))
		logit("H.NameObj")
	case "gblinear":
		a("the booster is gblinear", str("H.NameGbm", "gblinear"))
		a("there are features", not(r.zero(sc(r.i("H.Param.NumFeatures")))))
		pos()
		nf := r.i("L.Param.NumFeature")
		a("there is one weight per feature and output and one bias per output", r.cmp(token.EQL, sc(lenTerm(symOf("L.Weights", nil))), sc(mul(add(nf, intTerm(1)), one(G)))))
		logit("H.NameObj")
	case "sklearn":
		pos()
		a("there are estimators", not(r.zero(T[1])))
		a("there is one tree per estimator and output", r.cmp(token.EQL, r.e.binop(token.MUL, T[1], G, types.Typ[types.Int], types.Typ[types.Int]), T[0]))
		lo, pp := str("K.InitEstimator.Name", "LogOddsEstimator"), str("K.InitEstimator.Name", "PriorProbabilityEstimator")
		a("the initial estimate is log odds or prior probabilities", or(lo, pp))
		a("prior probabilities come one per output", implies(pp, r.cmp(token.EQL, sc(lenTerm(symOf("K.InitEstimator.Prior", nil))), G)))
	}
	return cs
}

// failures of steps: the guard of "some inner call returned an error".
func (r *LRun) stepFailure() *Node {
	g := bd.F
	for _, x := range r.e.effects {
		if x.kind != "call" && x.kind != "invoke" || x.res == nil {
			continue
		}
		ci, ok := x.instr.(ssa.CallInstruction)
		if !ok || !errResult(ci.Common().Signature()) {
			continue
		}
		switch x.name {
		case "fmt.Errorf", "errors.New", "(*os.File).Close":
			continue
		}
		g = or(g, r.node(and(x.guard, not(errIsNil(errOf(x))))))
	}
	return g
}

// objective strings of the LightGBM text format
var lgKnown = []struct{ s, kind string }{
	{"regression", "Raw"}, {"regression_l1", "Raw"},
	{"poisson", "Exponential"}, {"gamma", "Exponential"}, {"tweedie", "Exponential"},
	{"binary sigmoid:1", "Logistic"},
	{"multiclass num_class:3", "Softmax"}, {"multiclass num_class:12", "Softmax"},
}

var lgRefused = []string{
	"regression sqrt", "regression_l1 sqrt", "binary sigmoid:2", "binary sigmoid:0", "binary", "multiclass", "multiclass sigmoid:1", "binary num_class:1",
	"multiclassova num_class:3 sigmoid:1", "multiclassova num_class:3", "multiclassova sigmoid:1", "cross_entropy", "xentropy", "xentlambda", "cross_entropy_lambda", "lambdarank",
	"rank_xendcg", "huber", "fair", "quantile", "quantile alpha:0.5", "mape", "poisson sqrt", "", "custom", "none", "binary sigmoid:1 extra", "multiclass num_class:x",
}

// with fixes the objective of a text model.
func (r *LRun) with(obj string) *rewriter {
	key := r.s("P.objective")
	return newRewriter(func(t *Term) *Term {
		if t == key {
			return strTerm(obj)
		}
		return foldStr(t)
	})
}

// sizeOf the documented class count of a multiclass objective.
func objClasses(s string) int64 {
	if i := strings.Index(s, "num_class:"); i >= 0 {
		n := int64(0)
		for _, ch := range s[i+10:] {
			n = n*10 + int64(ch-'0')
		}
		return n
	}
	return 1
}

// avg: the file is an averaging model.
func (r *LRun) avg() *Node {
	if r.kind == "text" {
		return r.has("average_output")
	}
	return bd.F
}

func (c *Ctx) imply(g, n *Node, rule string, f *ssa.Function, pos token.Pos, what string) bool {
	ok, cx := entails(g, n)
	return c.must(ok, rule, f, pos, "%s @@not when %s", what, cut(litsStr(cx), 400))
}

func (p *Program) eachLoader(c *Ctx, rule string, f func(r *LRun, ok, bad []lret)) {
	ls := p.modelLoaders()
	c.must(len(ls) >= 9, "loaders", nil, 0, "only %d exported loaders found", len(ls))
	kinds := map[string]bool{}
	for _, l := range ls {
		l := l
		c.guarded(rule, l, func() {
			r := p.loaderRun(l)
			kinds[r.kind] = true
			if r.kind == "" {
				panic(undecided("the format read by " + fname(l)))
			}
			ok, bad := r.split()
			c.must(len(ok) > 0, rule, l, l.Pos(), "%s never succeeds", fname(l))
			f(r, ok, bad)
		})
	}
	c.must(len(kinds) == 5, rule, nil, 0, "%d of 5 formats found", len(kinds))
}

// ruleRefuse (C15)
func ruleRefuse(p *Program, c *Ctx) {
	p.eachLoader(c, "refuse", func(r *LRun, ok, bad []lret) {
		cs := r.conds()
		for _, s := range ok {
			for _, k := range cs {
				c.imply(s.g, k.n, "refuse", r.f, s.q.pos, fname(r.f)+" accepts a model although it is not so that "+k.what)
			}
			switch r.kind {
			case "text":
				// the number of trees: whatever the loop over them runs to
				part, _, why := r.trees(s.q)
				if !c.must(part != nil, "refuse", r.f, s.q.pos, "the loop over the trees @@%s", why) {
					continue
				}
				T := r.tripOf(part, s.g)
				if c.must(T != nil, "refuse", r.f, part.x.pos, "the number of trees read is not that stated by tree_sizes") {
					c.imply(s.g, r.zero(r.mod(T, r.groups())), "refuse", r.f, s.q.pos, fname(r.f)+" accepts a number of trees that is no multiple of the number of outputs")
				}
				c.imply(and(s.g, r.load, not(r.avg())), r.has("objective"), "refuse", r.f, s.q.pos, "a model without objective is given a transformation")
				for _, o := range lgRefused {
					g := r.with(o).node(s.g)
					_, sat := satTheory(and(g, r.load, not(r.avg()), r.has("objective")))
					c.must(!sat, "objective", r.f, s.q.pos, "objective '%s' is accepted", o)
				}
				for _, o := range lgKnown {
					g := r.with(o.s).node(s.g)
					n := r.cmp(token.EQL, r.groups(), sc(intTerm(objClasses(o.s))))
					if o.kind == "Raw" {
						n = bd.T
					}
					c.imply(and(g, r.load, not(r.avg()), r.has("objective")), n, "objective", r.f, s.q.pos, "objective '"+o.s+"' is accepted with another number of outputs")
				}
			case "gbtree":
				why := r.treeInfo(s.g)
				c.must(why == "", "refuse", r.f, s.q.pos, "trees in another order than one per output in turn are accepted @@%s", why)
			}
		}
		r.refusals(c, bad, cs)
		if r.kind == "gbtree" {
			c.xgTree(p, r)
		}
	})
	ruleConverters(p, c)
	ruleSteps(p, c)
	c.floor("refuse", 60)
	c.floor("accept", 40)
}

// refusals: an error is only returned when a step failed or a condition does
// not hold.
func (r *LRun) refusals(c *Ctx, bad []lret, cs []cond) {
	B := or(r.stepFailure(), r.treeBad())
	for _, k := range cs {
		B = or(B, not(k.n))
	}
	G := r.groups()
	for _, T := range r.treeCounts()[:min(1, len(r.treeCounts()))] {
		B = or(B, not(r.zero(r.mod(T, G))), r.zero(T))
	}
	if r.kind == "gbtree" {
		for _, n := range r.infoAtoms() {
			B = or(B, not(n))
		}
	}
	for _, s := range bad {
		if r.kind != "text" {
			c.imply(s.g, B, "accept", r.f, s.q.pos, fname(r.f)+" refuses a model it supports")
			continue
		}
		c.imply(and(s.g, or(not(r.load), r.avg())), B, "accept", r.f, s.q.pos, fname(r.f)+" refuses a model it supports")
		for _, o := range lgKnown {
			w := r.with(o.s)
			g := and(w.node(s.g), r.load, not(r.avg()), r.has("objective"))
			b := w.node(B)
			if o.kind != "Raw" {
				b = or(b, not(r.cmp(token.EQL, G, sc(intTerm(objClasses(o.s))))))
			}
			c.imply(g, b, "accept", r.f, s.q.pos, fname(r.f)+" refuses objective '"+o.s+"'")
		}
	}
}

// tripOf: the number of trees the loop of the append runs to (text models).
func (r *LRun) tripOf(q *lpart, g *Node) Val {
	if len(q.x.loops) != 1 {
		return nil
	}
	l := q.x.loops[0]
	for _, T := range r.treeCounts() {
		if ok, _ := r.e.doneAt(l, T, g, r.node(l.back)); ok {
			return T
		}
	}
	return nil
}

// ---- the model returned ---------------------------------------------------------------

// model: the object behind the returned ensemble.
func (r *LRun) model(q retEdge) (ens *Term, obj *Term, typ types.Type) {
	tv, ok := q.val.(*TupleVal)
	if !ok {
		panic(undecided("results of " + fname(r.f)))
	}
	nl := errIsNil(lastVal(q.val))
	for _, a := range altsOf(tv.v[0]) {
		if unsat(and(q.g, nl, a.g)) {
			continue
		}
		if ens != nil {
			panic(undecided("several models are returned"))
		}
		ens = a.t
	}
	if ens == nil {
		panic(undecided("no model is returned"))
	}
	sh := r.p.shape()
	m := r.only(q, r.e.loadVal(q.st, fieldAddr(ens, sh.modelF.Name(), sh.modelF.Type()), sh.modelF.Type()))
	if m == nil || m.op != "iface" {
		panic(undecided("the type of the returned model"))
	}
	io := m.obj.(*ifaceObj)
	obj = r.only(q, io.val)
	if obj == nil {
		panic(undecided("the returned model"))
	}
	return ens, obj, io.typ
}

// fieldBy finds the only field of the model whose type satisfies ok.
func fieldBy(t types.Type, ok func(types.Type) bool) *types.Var {
	var out *types.Var
	for _, f := range fieldsOf(t) {
		if ok(f.Type()) {
			if out != nil {
				return nil
			}
			out = f
		}
	}
	return out
}

func (r *LRun) fieldVal(q retEdge, ok func(types.Type) bool) Val {
	_, obj, typ := r.model(q)
	f := fieldBy(typ, ok)
	if f == nil {
		return nil
	}
	return r.alive(q, r.e.loadVal(q.st, fieldAddr(obj, f.Name(), f.Type()), f.Type()))
}

// alive: the alternatives that a successful return can have.
func (r *LRun) alive(q retEdge, v Val) Val {
	g := and(q.g, errIsNil(lastVal(q.val)))
	var gs []*Node
	var vs []Val
	for _, a := range altsOf(v) {
		if !unsat(and(g, a.g)) {
			gs = append(gs, a.g)
			vs = append(vs, sc(a.t))
		}
	}
	if len(vs) == 0 {
		return v
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return mergeVals(gs, vs)
}

func (r *LRun) only(q retEdge, v Val) *Term { return one(r.alive(q, v)) }

func (p *Program) isTreeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(ptrElem(s.Elem()), p.typ("", "lgTree"))
}

func ptrElem(t types.Type) types.Type {
	if pt, ok := t.(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// trees: the one step that adds trees to the model.
func (r *LRun) trees(q retEdge) (*lpart, *Effect, string) {
	L := one(r.fieldVal(q, r.p.isTreeList))
	if L == nil {
		return nil, nil, "the list of trees"
	}
	ps, sz, why := r.e.buildOf(L)
	if why != "" {
		return nil, nil, why
	}
	if len(ps) != 1 || sz != nil && ps[0].idx == nil {
		return nil, nil, "trees are added in more than one place"
	}
	t := r.tree(ps[0])
	if t == nil {
		return nil, nil, "the trees added are not whole trees"
	}
	for _, x := range r.e.effects {
		if x.fn == nil || x.res == nil || !r.p.treeLoader(x.fn) {
			continue
		}
		if tv, ok := x.res.(*TupleVal); ok {
			if ev := one(tv.v[1]); ev != nil && len(ev.args) == 1 && ev.args[0] == t.args[0] {
				return ps[0], x, ""
			}
		}
	}
	return nil, nil, "the trees added do not come from a tree converter"
}

// tree: the symbolic result of the tree converter the element is (or points to).
func (r *LRun) tree(q *lpart) *Term {
	var t *Term
	switch {
	case len(q.el) == 1:
		t = q.el[0]
	case q.val != nil:
		t = toTerm(q.val)
	default:
		return nil
	}
	t = resolver(q.x.guard).term(t)
	if t.op == "alloc" {
		// a pointer to a tree that is stored once
		var v Val
		for _, l := range q.x.loops {
			if !r.e.variant(l, t) {
				return nil // one tree for several rounds
			}
		}
		for _, x := range r.e.effects {
			if x.kind == "store" && rootOf(x.addr) == t {
				if ok, _ := entails(q.x.guard, x.guard); x.addr != t || v != nil || !ok || x.seq > q.x.seq {
					return nil
				}
				v = x.val
			}
		}
		if v == nil {
			return nil
		}
		t = resolver(q.x.guard).term(toTerm(v))
	}
	if t.op != "struct" {
		return nil
	}
	var base *Term
	st := structOf(t.typ)
	for i, a := range t.args {
		if a.op != "fieldof" || a.aux != st.Field(i).Name() || base != nil && a.args[0] != base {
			return nil
		}
		base = a.args[0]
	}
	if base == nil || base.op != "res" || base.aux != "0" {
		return nil
	}
	return base
}

// ---- C13 ---------------------------------------------------------------------------

type nodeRef struct {
	l                              *LoopInst
	node                           *Term
	nodes, leaves                  *Term
	feature, left, right, flags, i *Term
	set, bounds                    *Term
}

func (p *Program) nodeSpec() (feature string) {
	st := structOf(p.typ("", "lgNode"))
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if b := basic(f.Type()); b != nil && b.Kind() == types.Uint32 && f.Name() != "Left" && f.Name() != "Right" {
			if feature != "" {
				panic(undecided("the feature of a node"))
			}
			feature = f.Name()
		}
	}
	return
}

// nodeAt: the fields of node i of a tree (original terms).
func (r *LRun) nodeAt(tree *Term, i *Term, l *LoopInst) *nodeRef {
	lt := r.p.typ("", "lgTree")
	nf := fieldBy(lt, func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		return ok && types.Identical(s.Elem(), r.p.typ("", "lgNode"))
	})
	lf := fieldBy(lt, func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		return ok && isFloat(s.Elem())
	})
	n := &nodeRef{l: l, i: i}
	n.nodes = mkTerm("fieldof", nf.Name(), nf.Type(), tree)
	n.leaves = mkTerm("fieldof", lf.Name(), lf.Type(), tree)
	nt := r.p.typ("", "lgNode")
	n.node = indexAddr(n.nodes, i, nt)
	st := structOf(nt)
	ld := func(name string) *Term {
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == name {
				return one(r.e.loadVal(newState(), fieldAddr(n.node, name, st.Field(k).Type()), st.Field(k).Type()))
			}
		}
		panic(undecided("field " + name + " of a node"))
	}
	n.feature, n.left, n.right, n.flags = ld(r.p.nodeSpec()), ld("Left"), ld("Right"), ld("Flags")
	bn, _ := r.p.catLists()
	n.bounds = mkTerm("fieldof", bn, types.NewSlice(types.Typ[types.Uint32]), tree)
	n.set = convTerm(ld("Threshold"), types.Typ[types.Float64], types.Typ[types.Int64])
	return n
}

const catSetExists = "its category set exists"

// wellFormed: what evaluation needs of node i.
func (r *LRun) wellFormed(n *nodeRef, features *Term) []cond {
	lt := func(a, b *Term) *Node { return r.cmp(token.LSS, sc(a), sc(b)) }
	ll, rl := bitOf(n.flags, bitLeftLeaf), bitOf(n.flags, bitRightLeaf)
	nl, nn := lenTerm(n.leaves), lenTerm(n.nodes)
	return []cond{
		{"its feature is one of the model", lt(n.feature, features)},
		{"its left leaf exists", implies(ll, lt(n.left, nl))},
		{"its left child exists", implies(not(ll), lt(n.left, nn))},
		{"its left child comes after it", implies(not(ll), lt(n.i, n.left))},
		{"its right leaf exists", implies(rl, lt(n.right, nl))},
		{"its right child exists", implies(not(rl), lt(n.right, nn))},
		{"its right child is the next node", implies(not(rl), r.cmp(token.EQL, sc(n.right), sc(add(n.i, intTerm(1)))))},
		{catSetExists, implies(and(bitOf(n.flags, bitCat), not(bitOf(n.flags, bitOneHot)), not(bitOf(n.flags, bitSmall))), lt(add(n.set, intTerm(1)), lenTerm(n.bounds)))},
	}
}

// treeBad: the tree just converted is not well-formed.
func (r *LRun) treeBad() *Node {
	g := bd.F
	seen := map[*Term]bool{}
	for _, x := range r.e.effects {
		if x.fn == nil || x.res == nil || !r.p.treeLoader(x.fn) {
			continue
		}
		tv, ok := x.res.(*TupleVal)
		if !ok {
			continue
		}
		ev := one(tv.v[1])
		if ev == nil || ev.op != "res" || seen[ev.args[0]] {
			continue
		}
		seen[ev.args[0]] = true
		tree := mkTerm("res", "0", r.p.typ("", "lgTree"), ev.args[0])
		n0 := r.nodeAt(tree, intTerm(0), nil)
		g = or(g, r.zero(sc(lenTerm(n0.leaves))))
		for _, l := range r.loops() {
			n := r.nodeAt(tree, l.iv, l)
			if !mentionsNode(l, n) {
				continue
			}
			for _, k := range r.wellFormed(n, r.features()) {
				g = or(g, not(r.node(k.n)))
			}
		}
	}
	return g
}

func mentionsNode(l *LoopInst, n *nodeRef) bool {
	for _, g := range append([]*Node{l.back}, l.exits...) {
		for _, s := range support(g) {
			if findSub(s, func(t *Term) bool { return t == n.node }) != nil {
				return true
			}
		}
	}
	return false
}

func (r *LRun) loops() []*LoopInst {
	var out []*LoopInst
	for _, l := range r.e.loopByID {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ruleWellFormed (C13)
func ruleWellFormed(p *Program, c *Ctx) {
	ruleSetsFit(p, c)
	p.eachLoader(c, "wellformed", func(r *LRun, ok, bad []lret) {
		if r.kind == "gblinear" {
			return
		}
		for _, s := range ok {
			part, call, why := r.trees(s.q)
			if !c.must(part != nil, "wellformed", r.f, s.q.pos, "how trees are added @@%s", why) {
				continue
			}
			_ = call
			tree := r.tree(part)
			g := r.node(part.x.guard)
			n0 := r.nodeAt(tree, intTerm(0), nil)
			c.imply(g, not(r.zero(sc(lenTerm(n0.leaves)))), "wellformed", r.f, part.x.pos, "a tree without leaf values is kept")
			fs := r.features()
			for k, q := range r.wellFormed(n0, fs) {
				if q.what == catSetExists && r.kind != "text" && r.kind != "json" {
					continue // no categorical splits
				}
				why := ""
				found := false
				for _, l := range r.loops() {
					n := r.nodeAt(tree, l.iv, l)
					if !mentionsNode(l, n) {
						continue
					}
					q := r.wellFormed(n, fs)[k]
					why = q.what
					all := r.cmp(token.GEQ, sc(l.iv), sc(lenTerm(n.nodes)))
					ok1, cx1 := entails(g, all)
					ok2, cx2 := entails(r.node(l.back), r.node(q.n))
					if ok1 && ok2 {
						found = true
						break
					}
					if !ok1 {
						cx2 = cx1
					}
					why += " @@not when " + cut(litsStr(cx2), 300)
				}
				if why == "" {
					why = r.wellFormed(n0, fs)[k].what
				}
				c.must(found, "wellformed", r.f, part.x.pos, "a tree is kept without every node having been checked: %s", why)
			}
			for _, x := range r.e.effects {
				if x.kind == "store" && x.addr != nil && rootOf(x.addr).op == "fieldof" && rootOf(x.addr).args[0] == tree {
					c.must(false, "wellformed", r.f, x.pos, "a converted tree is changed")
				}
			}
		}
	})
	c.floor("wellformed", 40)
}

// ---- order of the trees ---------------------------------------------------------------

// infoAtoms: TreeInfo[i] == i mod outputs, for the loops that look at it.
func (r *LRun) infoAtoms() []*Node {
	var out []*Node
	for _, l := range r.loops() {
		for _, n := range r.infoIn(l) {
			out = append(out, n.n)
		}
	}
	return out
}

type infoEq struct {
	n   *Node
	idx *Term
}

// infoIn: the equations TreeInfo[idx] == X in the loop where X is provably
// idx mod outputs.
func (r *LRun) infoIn(l *LoopInst) []infoEq {
	var out []infoEq
	G := one(r.groups())
	info := symOf("M.TreeInfo", nil)
	for _, a := range support(r.node(l.back)) {
		if a.op != "eq0" {
			continue
		}
		el := findSub(a, func(t *Term) bool {
			return t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == info
		})
		if el == nil {
			continue
		}
		co, rest, ok := linearIn(a.args[0], el)
		if !ok {
			continue
		}
		n, isC := co.intVal()
		if !isC || n != 1 && n != -1 {
			continue
		}
		x := mul(intTerm(-n), rest)
		idx := el.args[0].args[1]
		if x == r.term(remTerm(idx, G, types.Typ[types.Int])) || r.cyclic(x, idx, G) || r.nested(x, idx, G) {
			out = append(out, infoEq{bd.atom(a), idx})
		}
	}
	return out
}

// cyclic: x starts at 0, is increased with every iteration and starts again
// when it reaches G.
func (r *LRun) cyclic(x, idx, G *Term) bool {
	l, ph := r.e.phiBySym(x)
	if l == nil || idx != l.iv {
		return false
	}
	if z := one(ph.init); z == nil || !isZeroI(z) {
		return false
	}
	in := r.cmp(token.LSS, sc(x), sc(G))
	inv := and(in, r.cmp(token.GEQ, sc(x), sc(intTerm(0))), r.node(l.back))
	want := mergeVals([]*Node{r.cmp(token.LSS, sc(add(x, intTerm(1))), sc(G)), r.cmp(token.GEQ, sc(add(x, intTerm(1))), sc(G))}, []Val{sc(add(x, intTerm(1))), sc(intTerm(0))})
	ok, _ := entails(inv, r.cmp(token.EQL, r.val(ph.next), want))
	return ok
}

func isZeroI(t *Term) bool { n, ok := t.intVal(); return ok && n == 0 }

// nested: idx = i*G + x, x counting from 0 to G-1 in the inner loop.
func (r *LRun) nested(x, idx, G *Term) bool {
	for _, l := range r.loops() {
		if l.iv != x || len(l.outer) == 0 {
			continue
		}
		o := l.outer[len(l.outer)-1]
		if idx == add(mul(o.iv, G), x) {
			if ok, _ := r.e.doneAt(l, sc(G), r.node(o.back), r.node(l.back)); ok {
				return true
			}
		}
	}
	return false
}

// treeInfo: on success every TreeInfo[i] was found to be i mod outputs.
func (r *LRun) treeInfo(g *Node) string {
	why := "no loop compares the output groups of the trees"
	for _, l := range r.loops() {
		for _, q := range r.infoIn(l) {
			if ok, cx := entails(r.node(l.back), q.n); !ok {
				why = "skipped when " + cut(litsStr(cx), 300)
				continue
			}
			if q.idx == l.iv {
				for _, T := range r.treeCounts() {
					ok, w := r.e.doneAt(l, T, g, r.node(l.back))
					if ok {
						return ""
					}
					why = w
				}
				continue
			}
			if len(l.outer) > 0 {
				o := l.outer[len(l.outer)-1]
				for _, T := range r.treeCounts() {
					// outer loop over all groups of trees
					if ok, _ := entails(g, r.cmp(token.GEQ, r.e.binop(token.MUL, sc(o.iv), r.groups(), types.Typ[types.Int], types.Typ[types.Int]), T)); ok {
						return ""
					}
					q := r.e.binop(token.QUO, T, r.groups(), types.Typ[types.Int], types.Typ[types.Int])
					if ok, _ := r.e.doneAt(o, q, g, r.node(o.back)); ok {
						return ""
					}
				}
			}
		}
	}
	return why
}

// xgTree: what a single XGBoost tree must satisfy to be converted.
func (c *Ctx) xgTree(p *Program, r *LRun) {
	done := map[*ssa.Function]bool{}
	for _, x := range r.e.effects {
		if x.fn == nil || !p.treeLoader(x.fn) || done[x.fn] {
			continue
		}
		done[x.fn] = true
		f := x.fn
		e, rets := p.runRoot(f, func(g *ssa.Function) bool { return false })
		// arguments at the call site
		m := map[*Term]*Term{}
		ps := e.symParams(f)
		var tree *Term
		for i, q := range ps {
			a := one(x.args[i])
			if one(q) == nil || a == nil {
				continue
			}
			m[one(q)] = r.term(a)
			if _, ok := f.Params[i].Type().(*types.Pointer); ok {
				tree = one(q)
			}
		}
		if tree == nil {
			panic(undecided("the tree converted by " + fname(f)))
		}
		rw := newRewriter(func(t *Term) *Term {
			if y, ok := m[t]; ok && t != tree {
				return y
			}
			if t.op == "load" {
				if n, ok := below(t.args[0], tree); ok {
					return symOf("T"+n, t.typ)
				}
			}
			if t.op == "conv" && isInt(t.typ) && isInt(t.args[0].typ) {
				return t.args[0]
			}
			return nil
		})
		I := r.i
		cs := []cond{
			{"a tree has one root", r.cmp(token.EQL, sc(I("T.Param.NumRoots")), sc(intTerm(1)))},
			{"a tree has nodes", not(r.zero(sc(I("T.Param.NumNodes"))))},
			{"a tree uses no more features than the header states", r.cmp(token.LEQ, sc(I("T.Param.NumFeature")), sc(I("H.Param.NumFeatures")))},
		}
		for _, q := range rets {
			g := rw.node(and(q.g, errIsNil(lastVal(q.val))))
			if unsat(g) {
				continue
			}
			for _, k := range cs {
				c.imply(g, k.n, "refuse", f, q.pos, "a tree is accepted although it is not so that "+k.what)
			}
		}
	}
}

// below: the field path of an address under root.
func below(a, root *Term) (string, bool) {
	if a == root {
		return "", true
	}
	if a.op == "field" {
		if s, ok := below(a.args[0], root); ok {
			return s + "." + a.aux, true
		}
	}
	return "", false
}

func init() {
	reg("C13", ruleWellFormed, symText+"Rule: a tree is only added to a model after a loop over all its nodes has shown for each that its feature exists, that leaves and children it names exist, and that children come after it (so that every path ends). In the converters of trees with category sets every boundary added is the number of words stored so far, so a set that exists lies inside the stored words.", asmInts)
	reg("C15", ruleRefuse, symText+"Rule: the guard of every successful return implies each condition of a supported file (versions, counts, tree order, objectives by constant propagation through the string operations); the guard of every error return implies a failed step or a condition that does not hold.", asmInts)
}

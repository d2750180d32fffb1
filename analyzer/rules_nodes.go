package main

// C11 (trees): every node of a converted tree has the split, missing value
// handling, leaves and children of the node of the file it stands for.

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// NRun: one converter of trees. Fields of node S of the file are named
// nf:<field>(S).
type NRun struct {
	p           *Program
	f           *ssa.Function
	r           *LRun
	e           *Engine
	rets        []retEdge
	rw          *rewriter
	kind        string
	src         types.Type // node of the file (not for text)
	left, right string     // names of the fields with the children
	child       map[string]string
	rtypes      map[string]types.Type
	adds        []*nodeAdd
	leafApps    []*Effect
	seen        map[*Term]bool
	twins       [][2]*Term // lists taken to be equally long

	// JSON: the decoder of nodes
	dec     *ssa.Function
	decE    *Engine
	decR    []retEdge
	decoded map[*Term]string // result of decoding -> tag of the raw child
}

type nodeAdd struct {
	x   *Effect
	g   *Node
	sv  *StructVal
	pos Val   // position in the list of nodes
	src *Term // S
	con bool  // stands for a tree without splits
}

func (p *Program) nodeRun(f *ssa.Function, also func(*ssa.Function) bool) *NRun {
	n := &NRun{p: p, f: f, child: map[string]string{}, rtypes: map[string]types.Type{}, seen: map[*Term]bool{}}
	n.r = p.loaderRunX(f, also)
	n.e, n.rets = n.r.e, n.r.rets
	n.kind = n.r.kind
	for _, q := range f.Params {
		switch {
		case strings.HasSuffix(q.Type().String(), "xgbin.TreeModel"):
			n.kind, n.left, n.right = "gbtree", "1", "2"
			n.src = p.typ("internal/xgbin", "Node")
		case strings.HasSuffix(q.Type().String(), "pickle.SklearnDecisionTreeRegressor"):
			n.kind, n.left, n.right = "sklearn", "LeftChild", "RightChild"
			n.src = p.typ("internal/pickle", "SklearnNode")
		}
	}
	switch n.kind {
	case "text":
		n.left, n.right = "left_child", "right_child"
	case "json":
		n.left, n.right = "left_child", "right_child"
		n.jsonNodes()
	case "gbtree", "sklearn":
	default:
		panic(undecided("the format converted by " + fname(f)))
	}
	n.rw = newRewriter(n.canon)
	return n
}

// tag names a field of a node of the file.
func (n *NRun) tag(t types.Type, name string) (string, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n.src == nil || !types.Identical(t, n.src) {
		return "", false
	}
	if n.kind == "sklearn" {
		return name, true
	}
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() != name {
			continue
		}
		if n.kind == "gbtree" {
			return strconv.Itoa(i), true
		}
		if s, ok := n.child[name]; ok {
			return s, true
		}
		if s := jsonTag(st, i); s != "" {
			return "json " + s, true
		}
	}
	return name, true
}

// argsOf: the arguments of the call whose result is c.
func (n *NRun) argsOf(c *Term) []*Term {
	for _, x := range n.e.effects {
		tv, ok := x.res.(*TupleVal)
		if !ok || len(tv.v) == 0 {
			continue
		}
		if t := one(tv.v[len(tv.v)-1]); t != nil && t.op == "res" && t.args[0] == c {
			var out []*Term
			for _, a := range x.args {
				if t := one(a); t != nil {
					out = append(out, t)
				}
			}
			return out
		}
	}
	return nil
}

func jsonTag(st *types.Struct, i int) string {
	return strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
}

func (n *NRun) canon(t *Term) *Term {
	switch t.op {
	case "lookup", "has":
		return n.r.canon(t)
	case "out", "fieldof":
		if t.op == "fieldof" {
			if b := t.args[0]; b.op == "load" {
				if s, ok := n.tag(b.args[0].typ, t.aux); ok {
					return n.nf(s, t.typ, b.args[0])
				}
			}
			if s, ok := n.tag(t.args[0].typ, t.aux); ok {
				return n.nf(s, t.typ, t.args[0])
			}
		}
		if n.kind == "json" {
			return n.r.canon(t)
		}
	case "res":
		c := t.args[0]
		if nm := strings.Split(c.aux, "@")[0]; (c.op == "call" || c.op == "ext") && strings.HasSuffix(nm, "Slice") && strings.Contains(nm, "stringParams") {
			as := c.args
			if c.op == "ext" {
				as = n.argsOf(c)
			}
			for _, a := range as {
				if k, ok := a.strVal(); ok {
					n.rtypes["P."+k] = t.typ
					if t.aux == "0" {
						return mkTerm("list", k, t.typ)
					}
					return mkTerm("sym", "err P."+k, t.typ)
				}
			}
		}
		return n.r.canon(t)
	case "load":
		a := t.args[0]
		switch a.op {
		case "index":
			if a.args[0].op == "list" {
				return mkTerm("nf", a.args[0].aux, t.typ, a.args[1])
			}
			if n.kind == "sklearn" && isFloat(t.typ) && rootSym(a.args[0]) {
				return mkTerm("nf", "values", t.typ, a.args[1])
			}
		case "field":
			if s, ok := n.tag(a.args[0].typ, a.aux); ok {
				return n.nf(s, t.typ, a.args[0])
			}
		}
		if n.kind == "json" {
			return n.r.canon(t)
		}
	case "sym":
		if y, ok := n.r.roots[t]; ok {
			return symOf(y, t.typ)
		}
	case "conv":
		x := t.args[0]
		if isInt(t.typ) && isInt(x.typ) && intBits(t.typ) >= 32 && !n.narrows(t.typ, x) {
			return x
		}
		if w := widen(t); w != t {
			return w
		}
	}
	if y, ok := n.r.roots[t]; ok {
		return symOf(y, t.typ)
	}
	return nil
}

// narrows: a conversion that could lose bits of a number from the file.
func (n *NRun) narrows(to types.Type, x *Term) bool { return false }

func rootSym(t *Term) bool {
	for t.op == "field" || t.op == "fieldof" || t.op == "load" {
		t = t.args[0]
	}
	return t.op == "sym"
}

func (n *NRun) nf(tag string, typ types.Type, addr *Term) *Term {
	s := addr
	if addr.op == "index" && rootSym(addr.args[0]) {
		s = addr.args[1]
	}
	return mkTerm("nf", tag, typ, s)
}

// fld: field of node S as the code reads it.
func (n *NRun) fld(tag string, S *Term) *Term {
	return mkTerm("nf", tag, n.ftype(tag), S)
}

func (n *NRun) ftype(tag string) types.Type {
	if n.kind == "text" {
		if t := n.rtypes["P."+tag]; t != nil {
			return t.Underlying().(*types.Slice).Elem()
		}
		return types.Typ[types.Int32]
	}
	if tag == "values" {
		return types.Typ[types.Float64]
	}
	st := structOf(n.src)
	for i := 0; i < st.NumFields(); i++ {
		if s, _ := n.tag(n.src, st.Field(i).Name()); s == tag {
			return st.Field(i).Type()
		}
	}
	panic(undecided("field " + tag + " of a node of the file"))
}

// jsonNodes finds the type of decoded nodes and which of its fields hold the
// decoded children.
func (n *NRun) jsonNodes() {
	var dec *ssa.Function
	for _, x := range n.e.effects {
		if x.kind == "call" && x.fn != nil && x.fn != n.f && n.p.recursive(x.fn) && x.fn.Signature.Results().Len() == 2 {
			dec = x.fn
		}
	}
	if dec == nil {
		panic(undecided("the decoding of tree nodes"))
	}
	e, rets := n.p.runRoot(dec, func(g *ssa.Function) bool { return g == dec })
	n.dec, n.decE, n.decR, n.decoded = dec, e, rets, map[*Term]string{}
	for _, x := range e.effects {
		if x.kind != "store" || x.addr == nil || x.addr.op != "field" {
			continue
		}
		v := pick(x.guard, x.val)
		if v == nil || v.op != "res" || v.aux != "0" {
			continue
		}
		var call *Effect
		for _, y := range e.effects {
			if y.fn == dec && y.kind == "call" {
				if tv, ok := y.res.(*TupleVal); ok && one(tv.v[0]) == v {
					call = y
				}
			}
		}
		if call == nil {
			continue
		}
		pt, ok := x.addr.args[0].typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		n.src = pt.Elem()
		st := structOf(n.src)
		raw := pick(call.guard, call.args[0])
		if raw == nil || raw.op != "fieldof" && raw.op != "out" && raw.op != "load" {
			panic(undecided("the raw child of a node"))
		}
		nm := raw.aux
		if raw.op == "load" {
			nm = raw.args[0].aux
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				n.child[x.addr.aux] = jsonTag(st, i)
				n.decoded[v] = jsonTag(st, i)
			}
		}
	}
	if n.src == nil || len(n.child) != 2 {
		panic(undecided("the children of a decoded node"))
	}
}

func (n *NRun) term(t *Term) *Term { return n.rw.term(t) }
func (n *NRun) node(g *Node) *Node { return n.rw.node(g) }

// side: facts about the left or right child of S.
func (n *NRun) kid(right bool, S *Term) *Term {
	if right {
		return n.fld(n.right, S)
	}
	return n.fld(n.left, S)
}

// leaf: the child is a leaf.
func (n *NRun) leaf(right bool, S *Term) *Node {
	k := n.kid(right, S)
	switch n.kind {
	case "text":
		return le0(polyOf(add(k, intTerm(1))))
	case "gbtree":
		return eq0(polyOf(add(n.fld(n.left, k), intTerm(1))))
	case "sklearn":
		return le0(polyOf(add(n.fld(n.left, k), intTerm(1))))
	}
	return bd.atom(mkTerm("is", "float64", types.Typ[types.Bool], k))
}

// leafVal: the value of the leaf (nil: kept in the file's own list).
func (n *NRun) leafVal(right bool, S *Term) *Term {
	k := n.kid(right, S)
	switch n.kind {
	case "gbtree":
		return n.fld("4", k)
	case "sklearn":
		return n.skValue(k)
	case "json":
		return mkTerm("as", "float64", types.Typ[types.Float64], k)
	}
	return nil
}

// skValue: value*scale+base
func (n *NRun) skValue(k *Term) *Term {
	var fl []Val
	for i, q := range n.f.Params {
		if isFloat(q.Type()) {
			fl = append(fl, n.e.symParams(n.f)[i])
		}
	}
	s := n.p.scaleParam(n.f)
	if len(fl) != 2 || s < 0 {
		panic(undecided("scale and base of " + fname(n.f)))
	}
	F := types.Typ[types.Float64]
	v := n.e.binop(token.MUL, sc(n.fld("values", k)), fl[s], F, F)
	return one(n.e.binop(token.ADD, v, fl[1-s], F, F))
}

// next: the child as a node of its own.
func (n *NRun) next(right bool, S *Term) *Term {
	k := n.kid(right, S)
	if n.kind == "json" {
		return mkTerm("as", types.TypeString(types.NewPointer(n.src), nil), types.NewPointer(n.src), k)
	}
	return k
}

// assume: what holds for the numbers in a valid file.
func (n *NRun) assume(g *Node) *Node {
	seen := map[*Term]bool{}
	out := bd.T
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "nf" && n.kind == "gbtree" && (t.aux == n.left || t.aux == n.right) {
			out = and(out, le0(polyOf(sub(intTerm(-1), t))))
		}
		if t.op == "nf" && n.kind == "json" && t.aux == "json missing_type" {
			// a decoded node has a missing type
			out = and(out, not(eq0(polyOf(lenTerm(t)))))
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.poly {
			for _, q := range m.fs {
				walk(q)
			}
		}
	}
	for _, a := range support(g) {
		walk(a)
		out = and(out, bitFact(a))
	}
	return out
}

// bitFact relates an equation or comparison over a few bits to the bits.
func bitFact(a *Term) *Node {
	if a.op != "eq0" && a.op != "le0" {
		return bd.T
	}
	var b *Term
	var c, k int64
	for _, m := range polyOf(a.args[0]) {
		switch {
		case len(m.fs) == 0:
			c = m.c
		case len(m.fs) == 1 && b == nil:
			b, k = m.fs[0], m.c
		default:
			return bd.T
		}
	}
	if b == nil || b.op != "and" && b.op != "shr" && b.op != "or" && b.op != "shl" && b.op != "xor" || k != 1 && k != -1 {
		return bd.T
	}
	var bits []*Node
	var free []int
	n := intBits(b.typ)
	for i := 0; i < n; i++ {
		x := bitOf(b, i)
		bits = append(bits, x)
		if x != bd.F && x != bd.T {
			free = append(free, i)
		}
	}
	if len(free) > 4 || n > 64 {
		return bd.T
	}
	holds := bd.F
	for m := 0; m < 1<<len(free); m++ {
		v := int64(0)
		g := bd.T
		for i := 0; i < n; i++ {
			if bits[i] == bd.T {
				v |= 1 << uint(i)
			}
		}
		for j, i := range free {
			if m>>uint(j)&1 == 1 {
				v |= 1 << uint(i)
				g = and(g, bits[i])
			} else {
				g = and(g, not(bits[i]))
			}
		}
		if s := k*v + c; a.op == "eq0" && s == 0 || a.op == "le0" && s <= 0 {
			holds = or(holds, g)
		}
	}
	at := bd.atom(a)
	return or(and(at, holds), and(not(at), not(holds)))
}

func iff(a, b *Node) *Node { return not(xor(a, b)) }

// imply with what is known about valid files.
func (n *NRun) imply(c *Ctx, g, h *Node, rule string, pos token.Pos, what string) bool {
	g = and(g, n.assume(and(g, h)))
	return c.imply(g, h, rule, n.f, pos, what)
}

// alive: the alternatives of v possible under g (canonical), as one value.
func (n *NRun) alive(g *Node, v Val) *Term {
	var t *Term
	for _, a := range altsOf(v) {
		x := n.term(a.t)
		if x == t {
			continue
		}
		h := and(g, n.node(a.g))
		if _, sat := satTheory(and(h, n.assume(h))); !sat {
			continue
		}
		if t != nil {
			return nil
		}
		t = x
	}
	return t
}

// srcOf: the node a field value was taken from.
func srcOf(t *Term, tags ...string) *Term {
	x := findSub(t, func(x *Term) bool {
		if x.op != "nf" {
			return false
		}
		for _, s := range tags {
			if x.aux == s {
				return true
			}
		}
		return false
	})
	if x == nil {
		return nil
	}
	return x.args[0]
}

func (n *NRun) featureTag() string {
	return map[string]string{"text": "split_feature", "json": "json split_feature", "gbtree": "3", "sklearn": "Feature"}[n.kind]
}
func (n *NRun) thresholdTag() string {
	return map[string]string{"text": "threshold", "json": "json threshold", "gbtree": "4", "sklearn": "Threshold"}[n.kind]
}

func (n *NRun) isNodeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), n.p.typ("", "lgNode"))
}

// collect finds where nodes and leaf values are added.
func (n *NRun) collect(c *Ctx) {
	lt := n.p.typ("", "lgNode")
	for _, x := range n.e.effects {
		switch {
		case x.kind == "append" && len(x.args) > 0:
			st, ok := appendType(x)
			if !ok {
				continue
			}
			el := st.Elem()
			if types.Identical(el, lt) {
				a := &nodeAdd{x: x, g: n.node(x.guard)}
				if len(x.args) < 2 {
					panic(undecided("a list of nodes is appended"))
				}
				sv, ok := x.args[len(x.args)-1].(*StructVal)
				if !ok || len(x.args) != 2 {
					panic(undecided("the node that is added"))
				}
				a.sv = sv
				a.pos = n.lenOf(x.addr)
				n.adds = append(n.adds, a)
			}
			if b := basic(el); b != nil && b.Kind() == types.Float64 {
				n.leafApps = append(n.leafApps, x)
			}
		case x.kind == "store" && x.addr != nil && x.addr.op == "index" && types.Identical(x.addr.typ.Underlying().(*types.Pointer).Elem(), lt):
			if rootOf(x.addr).op == "alloc" && x.addr.args[0] == rootOf(x.addr) {
				continue
			}
			sv, ok := x.val.(*StructVal)
			if !ok {
				panic(undecided("the node that is stored"))
			}
			n.adds = append(n.adds, &nodeAdd{x: x, g: n.node(x.guard), sv: sv, pos: sc(n.term(x.addr.args[1]))})
		}
	}
}

func appendType(x *Effect) (*types.Slice, bool) {
	for _, a := range altsOf(x.val) {
		if a.t.typ != nil {
			if s, ok := a.t.typ.Underlying().(*types.Slice); ok {
				return s, true
			}
		}
	}
	return nil, false
}

// lenOf: the length of a list (canonical alternatives).
func (n *NRun) lenOf(l *Term) Val {
	var gs []*Node
	var vs []Val
	alts := []Alt{{bd.T, l}}
	if l.op == "gv" {
		alts = l.obj.(*Scalar).alts
	}
	for _, a := range alts {
		gs = append(gs, n.node(a.g))
		vs = append(vs, sc(n.term(lenTerm(a.t))))
	}
	return mergeVals(gs, vs)
}

func (n *NRun) fieldIdx(name string) int {
	st := structOf(n.p.typ("", "lgNode"))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	// the field that is not one of the known ones
	if name == "Feature" {
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Threshold", "Left", "Right", "Flags":
			default:
				return i
			}
		}
	}
	panic(undecided("field " + name + " of lgNode"))
}

func (n *NRun) val(a *nodeAdd, name string) Val { return a.sv.f[n.fieldIdx(name)] }

// bit k of the node's flags
func (n *NRun) flag(a *nodeAdd, k int) *Node {
	out := bd.F
	for _, x := range altsOf(n.val(a, "Flags")) {
		out = or(out, and(n.node(x.g), bitOf(n.term(x.t), k)))
	}
	return out
}

// same: some alternative of v equals want.
func (n *NRun) same(v Val, want func(t *Term) *Node) *Node {
	out := bd.F
	for _, x := range altsOf(v) {
		out = or(out, and(n.node(x.g), want(n.term(x.t))))
	}
	return out
}

const (
	bCat = iota
	bDefLeft
	bLeftLeaf
	bRightLeaf
	bZero
	bNaN
	bOneHot
	bSmall
)

// fidelity of one added node.
func (n *NRun) fidelity(c *Ctx, a *nodeAdd) {
	pos := a.x.pos
	f := n.alive(a.g, n.val(a, "Feature"))
	if f == nil {
		panic(undecided("the feature of a node"))
	}
	S := srcOf(f, n.featureTag())
	if S == nil {
		if n.kind == "sklearn" && n.constTree(c, a) {
			a.con = true
			return
		}
		c.must(false, "split", n.f, pos, "the feature of a node is not taken from the file @@%v", f)
		return
	}
	a.src = S
	raw := n.fld(n.featureTag(), S)
	if n.kind == "gbtree" {
		ok := isInt(f.typ) || true
		for k := 0; k < 32; k++ {
			want := bitOf(raw, k)
			if k == 31 {
				want = bd.F
			}
			ok = ok && bitOf(f, k) == want
		}
		c.must(ok, "split", n.f, pos, "the feature of a node is not the low 31 bits of the split index @@%v", f)
	} else {
		c.must(f == raw, "split", n.f, pos, "the feature of a node is another number than in the file @@%v", f)
	}
	cat, defL, mz, mn := bd.F, bd.F, bd.F, bd.F
	switch n.kind {
	case "text":
		dt := n.fld("decision_type", S)
		cat, defL = bitOf(dt, 0), bitOf(dt, 1)
		mz = and(bitOf(dt, 2), not(bitOf(dt, 3)))
		mn = and(bitOf(dt, 3), not(bitOf(dt, 2)))
		n.imply(c, a.g, not(and(bitOf(dt, 2), bitOf(dt, 3))), "split", pos, "an unknown missing type is accepted")
	case "json":
		dt := n.fld("json decision_type", S)
		cat = genEq(strTerm("=="), dt)
		n.imply(c, a.g, or(cat, genEq(strTerm("<="), dt)), "split", pos, "an unknown decision type is accepted")
		defL = bd.atom(n.fld("json default_left", S))
		mt := n.fld("json missing_type", S)
		mz, mn = genEq(strTerm("Zero"), mt), genEq(strTerm("NaN"), mt)
		n.imply(c, a.g, or(genEq(strTerm("None"), mt), or(mz, mn)), "split", pos, "an unknown missing type is accepted")
	case "gbtree":
		defL = bitOf(n.fld("3", S), 31)
		mn = bd.T
	}
	n.imply(c, a.g, iff(n.flag(a, bCat), cat), "split", pos, "a node is numerical or categorical although the file says otherwise")
	n.imply(c, a.g, iff(n.flag(a, bNaN), mn), "split", pos, "the handling of NaN is not that of the file")
	num := and(a.g, not(cat))
	n.imply(c, num, iff(n.flag(a, bZero), mz), "split", pos, "the handling of zeros as missing values is not that of the file")
	if n.kind != "sklearn" {
		n.imply(c, num, iff(n.flag(a, bDefLeft), defL), "split", pos, "the default direction is not that of the file")
	}
	th := n.fld(n.thresholdTag(), S)
	if n.kind == "json" {
		th = mkTerm("as", "float64", types.Typ[types.Float64], th)
	}
	t := n.alive(num, n.val(a, "Threshold"))
	c.must(t == th, "split", n.f, pos, "the threshold of a node is another number than in the file @@%v", t)
	for _, right := range []bool{false, true} {
		b, fl, nm := bLeftLeaf, "Left", "left"
		if right {
			b, fl, nm = bRightLeaf, "Right", "right"
		}
		lf := n.leaf(right, S)
		n.imply(c, a.g, iff(n.flag(a, b), lf), "leaves", pos, "whether the "+nm+" child is a leaf is not as in the file")
		gl := and(a.g, lf)
		v := n.val(a, fl)
		if n.kind == "text" {
			want := sub(intTerm(-1), n.kid(right, S))
			n.imply(c, gl, n.same(v, func(t *Term) *Node { return eq0(polyOf(sub(t, want))) }), "leaves", pos, "the "+nm+" leaf of a node is another leaf than in the file")
			continue
		}
		n.imply(c, gl, n.leafAt(a, v, n.leafVal(right, S)), "leaves", pos, "the "+nm+" leaf of a node does not get the leaf's value")
	}
}

// leafAt: the list of leaf values has val at position v when the node is added.
func (n *NRun) leafAt(a *nodeAdd, v Val, val *Term) *Node {
	out := bd.F
	for _, x := range n.leafApps {
		if len(x.loops) != len(a.x.loops) || len(x.loops) > 0 && x.loops[len(x.loops)-1] != a.x.loops[len(a.x.loops)-1] {
			continue
		}
		k := n.lenOf(x.addr)
		g := n.node(x.guard)
		var el Val
		if len(x.args) == 2 {
			el = x.args[1]
		} else {
			continue
		}
		g = and(g, n.same(el, func(t *Term) *Node { return bconst(t == val) }))
		at := bd.F
		for _, p := range altsOf(k) {
			at = or(at, and(p.g, n.same(v, func(t *Term) *Node { return eq0(polyOf(sub(t, p.t))) })))
		}
		out = or(out, and(g, at))
	}
	return out
}

// constTree: a node that leads to the only leaf of a tree either way.
func (n *NRun) constTree(c *Ctx, a *nodeAdd) bool {
	if len(a.x.loops) > 0 {
		return false
	}
	want := n.skValue(intTerm(0))
	n.imply(c, a.g, and(n.flag(a, bLeftLeaf), n.flag(a, bRightLeaf)), "leaves", a.x.pos, "a tree without splits")
	for _, fl := range []string{"Left", "Right"} {
		v := n.val(a, fl)
		ok := bd.F
		for _, x := range n.leafApps {
			if len(x.args) != 2 || n.alive(n.node(x.guard), x.args[1]) != want {
				continue
			}
			for _, p := range altsOf(n.lenOf(x.addr)) {
				ok = or(ok, and(n.node(x.guard), and(p.g, n.same(v, func(t *Term) *Node { return eq0(polyOf(sub(t, p.t))) }))))
			}
		}
		n.imply(c, a.g, ok, "leaves", a.x.pos, "the value of a tree without splits")
	}
	// only when there is no split
	root := le0(polyOf(add(n.fld(n.left, intTerm(0)), intTerm(1))))
	ok, _ := entails(a.g, root)
	for _, l := range n.e.loopByID {
		for _, p := range l.phis {
			if p.sym == nil || ok {
				continue
			}
			if z, _ := entails(a.g, eq0(polyOf(n.term(p.sym)))); !z {
				continue
			}
			// counts the inner nodes
			inner := not(le0(polyOf(add(n.fld(n.left, l.iv), intTerm(1)))))
			up := bd.F
			for _, q := range altsOf(p.next) {
				if d, isC := n.term(sub(q.t, p.sym)).intVal(); isC && d > 0 {
					up = or(up, n.node(q.g))
				}
			}
			if z, _ := entails(and(n.node(l.back), inner), up); z {
				ok = true
			}
		}
	}
	c.must(ok, "leaves", n.f, a.x.pos, "a tree may be taken for one without splits although it has some")
	return true
}

// topOf: t is (a field of) the last element of a list.
func (n *NRun) topOf(t *Term) (list *Term, field string, ok bool) {
	if t.op == "fieldof" {
		field, t = t.aux, t.args[0]
		if t.op != "load" {
			return nil, "", false
		}
		t = t.args[0]
	} else if t.op == "load" {
		t = t.args[0]
		if t.op == "field" {
			field, t = t.aux, t.args[0]
		}
	} else {
		return nil, "", false
	}
	if t.op != "index" {
		return nil, "", false
	}
	X := t.args[0]
	if k, isC := n.beyond(t.args[1], X); !isC || k != -1 {
		return nil, "", false
	}
	return X, field, true
}

// beyond: i - len(X), if it is a constant. The length may be that of a list
// that is changed together with X (see step).
func (n *NRun) beyond(i, X *Term) (int64, bool) {
	if k, ok := sub(i, lenTerm(X)).intVal(); ok {
		return k, true
	}
	if X == nil || X.op != "mem" && X.op != "phi" {
		return 0, false
	}
	var k int64
	ok := false
	findSub(i, func(t *Term) bool {
		if t.op != "len" || t.args[0].op != "mem" && t.args[0].op != "phi" {
			return false
		}
		d, isC := sub(i, t).intVal()
		if !isC {
			return false
		}
		lx, _ := n.phiOf(X)
		ly, _ := n.phiOf(t.args[0])
		if lx == nil || lx != ly {
			return false
		}
		k, ok = d, true
		for _, w := range n.twins {
			if w == [2]*Term{X, t.args[0]} {
				return true
			}
		}
		n.twins = append(n.twins, [2]*Term{X, t.args[0]})
		return true
	})
	return k, ok
}

// step: lists that were taken to be equally long are.
func (n *NRun) step(c *Ctx) {
	for i := 0; i < len(n.twins); i++ {
		X, Y := n.twins[i][0], n.twins[i][1]
		l, px := n.phiOf(X)
		_, py := n.phiOf(Y)
		match := func(ox, oy []listOp, care *Node) {
			for _, a := range ox {
				for _, b := range oy {
					if !unsat(and(care, and(a.g, b.g))) {
						c.must(a.pops == b.pops && len(a.push) == len(b.push) && a.whole == b.whole, "links", n.f, n.f.Pos(), "the lists of pending nodes and of their places get out of step")
					}
				}
			}
		}
		match(n.ops(px.init, nil), n.ops(py.init, nil), n.node(l.entry))
		match(n.ops(px.next, X), n.ops(py.next, Y), n.node(l.back))
	}
}

// listOp: what one iteration does with a list.
type listOp struct {
	g     *Node
	pops  int
	push  []*Term
	whole bool // built from an empty list
}

// ops decodes a list that is made from list X (nil: from an empty one).
func (n *NRun) ops(v Val, X *Term) []listOp {
	var out []listOp
	var rec func(g *Node, t *Term, push []*Term)
	rec = func(g *Node, t *Term, push []*Term) {
		switch {
		case t == X:
			out = append(out, listOp{g, 0, push, false})
		case t.op == "gv":
			for _, a := range t.obj.(*Scalar).alts {
				h := and(g, n.node(a.g))
				if !unsat(h) {
					rec(h, a.t, push)
				}
			}
		case t.op == "append":
			rec(g, t.args[0], append([]*Term{t.args[1]}, push...))
		case t.op == "slice" && t.args[0] == X && isZeroT(t.args[1]):
			k, ok := n.beyond(t.args[2], X)
			if !ok {
				panic(undecided("a list of pending nodes"))
			}
			out = append(out, listOp{g, int(-k), push, false})
		case X == nil && (t.op == "make" && isZeroT(t.args[0]) || t == nilTerm || t.op == "slice" && isZeroT(t.args[2])):
			out = append(out, listOp{g, 0, push, true})
		default:
			panic(undecided("a list of pending nodes: " + cut(t.String(), 200)))
		}
	}
	for _, a := range altsOf(v) {
		g := n.node(a.g)
		rec(g, n.raw(a.t), nil)
	}
	return out
}

func (n *NRun) raw(t *Term) *Term { return n.term(t) }

func elemField(el *Term, name string) *Term {
	if name == "" {
		return el
	}
	st := structOf(el.typ)
	if el.op != "struct" || st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return el.args[i]
		}
	}
	return nil
}

// aliveT: the alternative of a term possible under g.
func (n *NRun) aliveT(g *Node, t *Term) *Term {
	if t == nil || t.op != "gv" {
		return t
	}
	return n.alive(g, t.obj.(*Scalar))
}

type link struct {
	x     *Effect
	g     *Node
	right bool
	at    *Term // position of the changed node, or
	ptr   *Term // the place itself
}

func (n *NRun) phiOf(X *Term) (*LoopInst, *PhiInfo) {
	for _, l := range n.e.loopByID {
		for _, q := range append(append([]*PhiInfo{}, l.phis...), l.mem...) {
			if q.sym != nil && n.term(q.sym) == X {
				return l, q
			}
		}
	}
	return nil, nil
}

// links finds the stores that connect nodes; other changes of nodes are not
// allowed.
func (n *NRun) links(c *Ctx) []link {
	var out []link
	lt := n.p.typ("", "lgNode")
	for _, x := range n.e.effects {
		if x.kind != "store" || x.addr == nil {
			continue
		}
		isAdd := false
		for _, a := range n.adds {
			isAdd = isAdd || a.x == x
		}
		if isAdd {
			continue
		}
		a := n.term(x.addr)
		switch {
		case a.op == "field" && a.args[0].op == "index" && types.Identical(structPtr(a.args[0].typ), lt):
			if rootOf(a).op == "alloc" && a.args[0].args[0] == rootOf(a) {
				continue
			}
			if a.aux != "Left" && a.aux != "Right" {
				c.must(false, "links", n.f, x.pos, "field %s of a node is changed after the node was added", a.aux)
				continue
			}
			out = append(out, link{x: x, g: n.node(x.guard), right: a.aux == "Right", at: a.args[0].args[1]})
		case a.op == "load" || a.op == "fieldof":
			if pt, ok := a.typ.Underlying().(*types.Pointer); ok && isInt(pt.Elem()) {
				out = append(out, link{x: x, g: n.node(x.guard), ptr: a})
			}
		case a.op == "index" && isFloat(a.typ.Underlying().(*types.Pointer).Elem()):
			if rootOf(a).op == "alloc" && a.args[0] == rootOf(a) {
				continue
			}
			c.must(false, "leaves", n.f, x.pos, "a leaf value is changed after it was added")
		}
	}
	return out
}

func structPtr(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// connect: every node that is not a leaf is added once and its parent is
// told where.
func (n *NRun) connect(c *Ctx) (work []*Term) {
	ls := n.links(c)
	used := map[*Effect]*Node{}
	for _, a := range n.adds {
		if a.src == nil {
			continue
		}
		S := a.src
		pos := a.x.pos
		if len(a.x.loops) == 0 {
			if n.kind == "json" {
				panic(undecided("the first node"))
			}
			c.must(isZeroT(S), "links", n.f, pos, "the first node added is not the root @@%v", S)
			n.imply(c, a.g, n.same(a.pos, func(t *Term) *Node { return eq0(polyOf(t)) }), "links", pos, "the root is not the first node")
			continue
		}
		back := n.node(a.x.loops[len(a.x.loops)-1].back)
		eqPos := func(v Val) *Node {
			out := bd.F
			for _, p := range altsOf(a.pos) {
				out = or(out, and(p.g, n.same(v, func(t *Term) *Node { return eq0(polyOf(sub(t, p.t))) })))
			}
			return out
		}
		if S.op == "nf" && (S.aux == n.left || S.aux == n.right) {
			// added when its parent is looked at
			right := S.aux == n.right
			Q := S.args[0]
			X, fx, ok := n.topOf(Q)
			if !ok {
				panic(undecided("the parent of a node"))
			}
			any := bd.F
			for _, l := range ls {
				if l.at == nil || l.right != right {
					continue
				}
				Y, fy, ok := n.topOf(l.at)
				if !ok {
					continue
				}
				h := and(l.g, and(a.g, eqPos(l.x.val)))
				if unsat(h) {
					continue
				}
				any = or(any, h)
				if used[l.x] == nil {
					used[l.x] = bd.F
				}
				used[l.x] = or(used[l.x], h)
				n.paired(c, X, fx, Y, fy, l.x.pos)
				work = append(work, X)
				n.imply(c, and(h, back), n.inner(right, Q, l.at), "links", pos, "a leaf is added as a node")
			}
			n.imply(c, and(a.g, back), any, "links", pos, "the parent of a node is not told where its child is")
			continue
		}
		// taken from a list of pending nodes
		X, fx, ok := n.topOf(S)
		if !ok {
			c.must(false, "links", n.f, pos, "a node is not the child of one added before @@%v", S)
			continue
		}
		work = append(work, X)
		any := bd.F
		var fy string
		for _, l := range ls {
			if l.ptr == nil {
				continue
			}
			Y, f, ok := n.topOf(l.ptr)
			if !ok || Y != X {
				continue
			}
			fy = f
			h := and(l.g, and(a.g, eqPos(l.x.val)))
			any = or(any, or(h, isNil(l.ptr)))
			if used[l.x] == nil {
				used[l.x] = bd.F
			}
			used[l.x] = or(used[l.x], h)
		}
		n.imply(c, and(a.g, back), any, "links", pos, "the parent of a node is not told where its child is")
		if fy != "" {
			n.pending(c, a, X, fx, fy)
		}
	}
	for _, l := range ls {
		u := used[l.x]
		if u == nil {
			u = bd.F
		}
		n.imply(c, l.g, u, "links", l.x.pos, "a node is made the child of another node than in the file")
	}
	return work
}

// inner: the child of node Q (kept at position at) is not a leaf, according
// to the file or to the flag read back.
func (n *NRun) inner(right bool, Q, at *Term) *Node {
	ok := not(n.leaf(right, Q))
	for _, b := range n.flagged(right, at) {
		ok = or(ok, not(b))
	}
	return ok
}

func (n *NRun) isLeaf(right bool, Q, at *Term) *Node {
	ok := n.leaf(right, Q)
	for _, b := range n.flagged(right, at) {
		ok = or(ok, b)
	}
	return ok
}

func (n *NRun) flagged(right bool, at *Term) []*Node {
	b := bLeftLeaf
	if right {
		b = bRightLeaf
	}
	var out []*Node
	for _, t := range n.flagLoads(at) {
		out = append(out, bitOf(t, b))
	}
	return out
}

// flagLoads: reads of the flags of the node at a position.
func (n *NRun) flagLoads(at *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	scan := func(g *Node) {
		for _, a := range support(n.node(g)) {
			findSub(a, func(t *Term) bool {
				if t.op == "load" && !seen[t] && t.args[0].op == "field" && t.args[0].aux == "Flags" && t.args[0].args[0].op == "index" && t.args[0].args[0].args[1] == at {
					seen[t] = true
					out = append(out, t)
				}
				return false
			})
		}
	}
	for _, x := range n.e.effects {
		scan(x.guard)
	}
	for _, l := range n.e.loopByID {
		scan(l.back)
	}
	return out
}

// paired: both lists hold the source and the position of the same nodes.
func (n *NRun) paired(c *Ctx, X *Term, fx string, Y *Term, fy string, pos token.Pos) {
	key := mkTerm("pair", fx+"|"+fy, nil, X, Y)
	if n.seen[key] {
		return
	}
	n.seen[key] = true
	lx, px := n.phiOf(X)
	ly, py := n.phiOf(Y)
	if lx == nil || lx != ly {
		panic(undecided("the lists of pending nodes"))
	}
	match := func(ox, oy []listOp, care *Node, root bool) {
		for _, a := range ox {
			for _, b := range oy {
				g := and(care, and(a.g, b.g))
				g = and(g, n.assume(g))
				if unsat(g) {
					continue
				}
				if !c.must(a.pops == b.pops && len(a.push) == len(b.push) && a.whole == b.whole, "links", n.f, pos, "the lists of pending nodes and of their places get out of step") {
					continue
				}
				for i := range a.push {
					s, q := n.aliveT(g, elemField(a.push[i], fx)), n.aliveT(g, elemField(b.push[i], fy))
					if s == nil || q == nil {
						panic(undecided("a pending node"))
					}
					hit := bd.F
					for _, ad := range n.adds {
						if ad.src != s || root != (len(ad.x.loops) == 0) {
							continue
						}
						hit = or(hit, and(ad.g, n.same(ad.pos, func(t *Term) *Node { return eq0(polyOf(sub(t, q))) })))
					}
					n.imply(c, g, hit, "links", pos, "a pending node is kept with the place of another node")
				}
				if a.pops == 0 || root {
					continue
				}
				// a node is done when its children are
				Q := n.topVal(X, fx)
				at := n.topVal(Y, fy)
				for _, right := range []bool{false, true} {
					done := n.isLeaf(right, Q, at)
					done = or(done, n.visited(g, n.kid(right, Q)))
					n.imply(c, g, done, "links", pos, "a node is left before its children are added")
				}
			}
		}
	}
	match(n.ops(px.init, nil), n.ops(py.init, nil), n.node(lx.entry), true)
	match(n.ops(px.next, X), n.ops(py.next, Y), n.node(lx.back), false)
}

// topVal: the last element of a list as it is read.
func (n *NRun) topVal(X *Term, f string) *Term {
	var out *Term
	for _, a := range n.adds {
		if a.src == nil {
			continue
		}
		findSub(a.src, func(t *Term) bool {
			if Y, g, ok := n.topOf(t); ok && Y == X && g == f {
				out = t
			}
			return false
		})
	}
	for _, x := range n.e.effects {
		if out != nil {
			break
		}
		if x.kind == "store" && x.addr != nil {
			findSub(n.term(x.addr), func(t *Term) bool {
				if Y, g, ok := n.topOf(t); ok && Y == X && g == f {
					out = t
				}
				return false
			})
		}
	}
	if out == nil {
		panic(undecided("the last pending node"))
	}
	return out
}

// visited: marks that node k was added, which are only set when it is.
func (n *NRun) visited(g *Node, k *Term) *Node {
	out := bd.F
	for _, a := range support(g) {
		if a.op != "load" || !isBoolT(a.typ) || a.args[0].op != "index" || a.args[0].args[1] != k {
			continue
		}
		V := a.args[0].args[0]
		ok := V.op == "make"
		for _, x := range n.e.effects {
			if x.kind != "store" || x.addr == nil || x.addr.op != "index" || n.term(x.addr).args[0] != V {
				continue
			}
			i := n.term(x.addr).args[1]
			h := n.node(x.guard)
			hit := bd.F
			for _, ad := range n.adds {
				if ad.src == i && sameLoops(ad.x.loops, x.loops) {
					hit = or(hit, ad.g)
				}
			}
			if z, _ := entails(h, hit); !z {
				ok = false
			}
		}
		if ok {
			out = or(out, bd.atom(a))
		}
	}
	return out
}

// pending: a list of nodes still to add, each with the place to be told.
func (n *NRun) pending(c *Ctx, a *nodeAdd, X *Term, fx, fy string) {
	l, px := n.phiOf(X)
	if l == nil {
		panic(undecided("the list of pending nodes"))
	}
	pos := a.x.pos
	if a.x.kind == "append" {
		n.fixed(c, a)
	}
	for _, o := range n.ops(px.init, nil) {
		g := and(n.node(l.entry), o.g)
		g = and(g, n.assume(g))
		if unsat(g) {
			continue
		}
		if !c.must(len(o.push) == 1, "links", n.f, pos, "not only the root is pending first") {
			continue
		}
		s, q := n.aliveT(g, elemField(o.push[0], fx)), n.aliveT(g, elemField(o.push[0], fy))
		c.must(s != nil && n.isRoot(s), "links", n.f, pos, "the first node added is not the root @@%v", s)
		c.must(q == nilTerm, "links", n.f, pos, "the root has a parent")
	}
	for _, o := range n.ops(px.next, X) {
		g := and(n.node(l.back), o.g)
		g = and(g, n.assume(g))
		if unsat(g) {
			continue
		}
		c.must(o.pops == 1, "links", n.f, pos, "a pending node is added more than once or never")
		have := map[bool]bool{}
		for _, e := range o.push {
			s, q := n.aliveT(g, elemField(e, fx)), n.aliveT(g, elemField(e, fy))
			if s == nil || q == nil {
				panic(undecided("a pending node"))
			}
			ok := false
			for _, right := range []bool{false, true} {
				if s != n.next(right, a.src) {
					continue
				}
				nm := "Left"
				if right {
					nm = "Right"
				}
				c.must(!have[right], "links", n.f, pos, "a node is added twice")
				have[right] = true
				ok = true
				good := q.op == "field" && q.aux == nm && q.args[0].op == "index"
				if c.must(good, "links", n.f, pos, "a child is told to the wrong place of its parent @@%v", q) {
					n.imply(c, g, n.same(a.pos, func(t *Term) *Node { return eq0(polyOf(sub(t, q.args[0].args[1]))) }), "links", pos, "a child is told to another node than its parent")
				}
				n.imply(c, g, not(n.leaf(right, a.src)), "links", pos, "a leaf is added as a node")
			}
			c.must(ok, "links", n.f, pos, "a pending node is not a child of the node just added @@%v", s)
		}
		for _, right := range []bool{false, true} {
			if !have[right] {
				n.imply(c, g, n.leaf(right, a.src), "links", pos, "a child is never added")
			}
		}
	}
}

// fixed: places within nodes stay valid only while the list of nodes is not
// moved, so there has to be room for all nodes (one less than leaves).
func (n *NRun) fixed(c *Ctx, a *nodeAdd) {
	base := a.x.addr
	if base != nil {
		base = n.term(base)
		if _, p := n.phiOf(base); p != nil {
			base = nil
			if v := one(p.init); v != nil {
				base = n.term(v)
			}
		}
	}
	if base == nil {
		panic(undecided("the list of nodes"))
	}
	ok := false
	if base.op == "make" && len(base.args) > 1 {
		d := sub(base.args[1], sub(mkTerm("sym", "J.num_leaves", types.Typ[types.Int]), intTerm(1)))
		k, isC := n.term(d).intVal()
		ok = isC && k >= 0
	}
	c.must(ok, "links", n.f, a.x.pos, "places within nodes are kept, but the list of nodes may move: %v", base)
}

// isRoot: the decoded root of the tree.
func (n *NRun) isRoot(s *Term) bool {
	if s.op == "as" {
		s = s.args[0]
	}
	return n.rootTerm() == s
}

func (n *NRun) rootTerm() *Term {
	for _, x := range n.e.effects {
		if x.kind != "call" || x.fn == nil || x.fn == n.f || !n.p.recursive(x.fn) {
			continue
		}
		if tv, ok := x.res.(*TupleVal); ok && len(x.args) > 0 {
			if a := one(x.args[0]); a != nil && n.term(a) == symOf("J.tree_structure", nil) || a != nil && n.term(a).op == "sym" && n.term(a).aux == "J.tree_structure" {
				return n.term(one(tv.v[0]))
			}
		}
	}
	return nil
}

// finished: what a successful conversion returns.
func (n *NRun) finished(c *Ctx, work []*Term) {
	st := structOf(n.p.typ("", "lgTree"))
	idx := func(name string) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		panic(undecided("field " + name + " of lgTree"))
	}
	some := false
	for _, q := range n.rets {
		g := n.node(and(q.g, errIsNil(lastVal(q.val))))
		g = and(g, n.assume(g))
		if unsat(g) {
			continue
		}
		tv, _ := q.val.(*TupleVal)
		var sv *StructVal
		if tv != nil {
			sv, _ = tv.v[0].(*StructVal)
		}
		if sv == nil {
			panic(undecided("the converted tree"))
		}
		some = true
		nodes, leaves := sv.f[idx("nodes")], sv.f[idx("leafValues")]
		for _, a := range altsOf(nodes) {
			h := and(g, n.node(a.g))
			if unsat(h) {
				continue
			}
			t := n.term(a.t)
			lf := n.alive(h, leaves)
			if n.kind == "text" {
				c.must(lf != nil && lf.op == "list" && lf.aux == "leaf_value", "leaves", n.f, q.pos, "the leaf values are not those of the file @@%v", lf)
			}
			if t == nilTerm || t.op == "make" || t.op == "slice" && isZeroT(t.args[2]) {
				n.constant(c, h, lf, q.pos)
				continue
			}
			con := false
			for _, ad := range n.adds {
				if ad.con && t.op == "append" && n.lenOf(ad.x.addr) != nil {
					if v := one(ad.x.val); v != nil && n.term(v) == t {
						con = true
					}
				}
			}
			if con {
				continue
			}
			l, p := n.phiOf(t)
			c.must(p != nil, "links", n.f, q.pos, "the nodes of the tree are not all those added @@%v", t)
			for _, X := range work {
				n.imply(c, h, eq0(polyOf(lenTerm(X))), "links", q.pos, "the conversion ends before all nodes are added")
			}
			if n.kind != "text" {
				_, p := n.phiOf(toTermNil(lf))
				c.must(p != nil, "leaves", n.f, q.pos, "the leaf values are not all those added @@%v", lf)
			}
			_ = l
		}
	}
	c.must(some, "links", n.f, n.f.Pos(), "no tree is ever converted")
}

func toTermNil(t *Term) *Term {
	if t == nil {
		return nilTerm
	}
	return t
}

// constant: a tree that is a single leaf.
func (n *NRun) constant(c *Ctx, g *Node, lf *Term, pos token.Pos) {
	one1 := func(v *Term) {
		ok := lf != nil && lf.op == "append" && (lf.args[0] == nilTerm || lf.args[0].op == "make" && isZeroT(lf.args[0].args[0]) || lf.args[0].op == "slice" && isZeroT(lf.args[0].args[2])) && lf.args[1] == v
		c.must(ok, "leaves", n.f, pos, "the value of a tree without splits is not that of the file @@%v", lf)
	}
	switch n.kind {
	case "text":
		nl := symOf("int P.num_leaves", nil)
		n.imply(c, g, eq0(polyOf(sub(mkTerm("sym", nl.aux, types.Typ[types.Int]), intTerm(1)))), "leaves", pos, "a tree with splits may be taken for one without")
	case "gbtree":
		one1(n.fld("4", intTerm(0)))
		ok := n.leaf(false, intTerm(0))
		for _, a := range support(g) {
			findSub(a, func(t *Term) bool {
				if t.op == "load" && t.args[0].op == "field" && t.args[0].aux == "NumNodes" || t.op == "len" && n.isSrcList(t.args[0]) {
					ok = eq0(polyOf(sub(t, intTerm(1))))
				}
				return false
			})
		}
		n.imply(c, g, ok, "leaves", pos, "a tree with splits may be taken for one without")
	case "json":
		r := n.rootTerm()
		if r == nil {
			panic(undecided("the root of the tree"))
		}
		v := mkTerm("as", "float64", types.Typ[types.Float64], r)
		if lf != nil && lf.op == "append" && lf.args[1].op == "gv" {
			lf = mkTerm("append", "", lf.typ, lf.args[0], n.aliveT(g, lf.args[1]))
		}
		one1(v)
		n.imply(c, g, bd.atom(mkTerm("is", "float64", types.Typ[types.Bool], r)), "leaves", pos, "a tree with splits may be taken for one without")
	}
}

func (n *NRun) isSrcList(t *Term) bool {
	if t.typ == nil || n.src == nil {
		return false
	}
	s, ok := t.typ.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), n.src)
}

// converters: the functions that convert one tree.
func (p *Program) converters() []*ssa.Function {
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, l := range p.modelLoaders() {
		r := p.loaderRun(l)
		for _, x := range r.e.effects {
			if x.fn != nil && p.treeLoader(x.fn) && !seen[x.fn] {
				seen[x.fn] = true
				fs = append(fs, x.fn)
			}
		}
	}
	return fs
}

// ruleNodes: the converters of trees.
func ruleNodes(p *Program, c *Ctx) {
	fs := p.converters()
	c.guarded("lines", nil, func() { ruleParams(p, c) })
	c.guarded("numbers", nil, func() { ruleNumberLists(p, c) })
	c.must(len(fs) == 4, "split", nil, 0, "%d of 4 converters of trees found", len(fs))
	for _, f := range fs {
		f := f
		c.guarded("split", f, func() {
			n := p.nodeRun(f, nil)
			n.collect(c)
			c.must(len(n.adds) > 0, "split", f, f.Pos(), "no nodes are added")
			for _, a := range n.adds {
				a := a
				c.guarded("split", f, func() { n.fidelity(c, a) })
			}
			work := n.connect(c)
			c.must(len(work) > 0, "links", f, f.Pos(), "no pending nodes")
			n.finished(c, work)
			n.owned(c)
			n.step(c)
			if n.kind == "json" {
				c.guarded("decode", n.dec, func() { n.jsonDecoder(c) })
			}
		})
	}
}

// owned: the lists of a tree are its own: memory that was there before the
// tree was converted could belong to another tree.
func (n *NRun) owned(c *Ctx) {
	st := structOf(n.p.typ("", "lgTree"))
	for _, q := range n.rets {
		tv, _ := q.val.(*TupleVal)
		if tv == nil {
			continue
		}
		sv, _ := tv.v[0].(*StructVal)
		g := and(q.g, errIsNil(lastVal(q.val)))
		if sv == nil || unsat(g) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			for _, a := range altsOf(sv.f[i]) {
				if unsat(and(g, a.g)) {
					continue
				}
				b := n.foreign(a.t)
				c.must(b == nil, "own", n.f, q.pos, "%s of the tree lies in memory that was there before: %v", st.Field(i).Name(), b)
			}
		}
	}
}

// foreign: the memory a list lies in, if it was not allocated for the list.
func (n *NRun) foreign(t *Term) *Term {
	seen := map[*Term]bool{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		switch t.op {
		case "nil", "make", "alloc":
			return nil
		case "append", "appendall", "slice":
			return walk(t.args[0])
		case "res", "call", "ext":
			return nil // the result of a function
		}
		if _, ph := n.e.phiBySym(t); ph != nil {
			for _, v := range []Val{ph.init, ph.next} {
				for _, a := range altsOf(v) {
					if b := walk(a.t); b != nil {
						return b
					}
				}
			}
			return nil
		}
		return t
	}
	return walk(t)
}

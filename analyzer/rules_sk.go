package main

// C20: the objects of a scikit-learn pickle. Every method that restores a
// python object is evaluated on an arbitrary state; what it leaves in the
// fields of the receiver is compared with the attribute, the position or the
// bytes it belongs to. ParseClass is taken by its contract, which is checked
// on its own.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const skRule = "attribute"

const skPkg = "internal/pickle"

type skClass struct {
	p     *Program
	c     *Ctx
	parse *ssa.Function
	need  map[string]bool // classes that must be restored into a zero value
}

type skRun struct {
	*skClass
	f    *ssa.Function
	e    *Engine
	typ  types.Type // class
	recv *Term
	arg  *StructVal // the Reduce or Build
	rets []retEdge
	on   *Node // part of the runs looked at
	good *Node // what makes the method succeed
	todo map[string]bool
	used map[*Effect]bool
}

func (r *skRun) must(ok bool, pos token.Pos, format string, args ...interface{}) bool {
	return r.c.must(ok, skRule, r.f, pos, format, args...)
}

// ok: the returns without an error.
func (r *skRun) ok() (out []retEdge) {
	for _, q := range r.rets {
		g := and(q.g, r.on, errIsNil(lastVal(q.val)))
		if !unsat(g) {
			q.g = g
			out = append(out, q)
		}
	}
	return
}

// require: success means h.
func (r *skRun) require(h *Node, format string, args ...interface{}) bool {
	r.good = and(r.good, implies(r.on, h))
	return r.certain(h, format, args...)
}

// certain: success means h, which nothing valid can violate.
func (r *skRun) certain(h *Node, format string, args ...interface{}) bool {
	ok, pos := true, r.f.Pos()
	for _, q := range r.ok() {
		if y, _ := entails(q.g, h); !y {
			ok, pos = false, q.pos
		}
	}
	return r.must(ok, pos, format, args...)
}

// may: not required of valid input, but not a defect either.
func (r *skRun) may(h *Node) { r.good = and(r.good, implies(r.on, h)) }

func (p *Program) skTyp(name string) types.Type { return p.typ(skPkg, name) }

func typeName(t types.Type) string { return types.TypeString(t, nil) }

func isType(x *Term, t types.Type) *Node {
	return bd.atom(mkTerm("is", typeName(t), types.Typ[types.Bool], x))
}
func asType(x *Term, t types.Type) *Term { return mkTerm("as", typeName(t), t, x) }

func shortType(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// as: the object x of type t.
func (r *skRun) as(x *Term, t types.Type, what string) *Term {
	r.require(isType(x, t), "%s is not checked to be a %s", what, shortType(t))
	return asType(x, t)
}

func (r *skRun) field(name string) Val { return fieldByName(r.arg, name) }

// at: element i of a tuple.
func at(t *Term, i int64, et types.Type) *Term {
	return mkTerm("load", "", et, indexAddr(t, intTerm(i), et))
}

func anyType() types.Type { return types.NewInterfaceType(nil, nil) }

func (r *skRun) elem(t *Term, i int64) *Term {
	et := anyType()
	if s, ok := t.typ.Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	return at(t, i, et)
}

// global: x is the python object of that name.
func (r *skRun) global(x *Term, mod, name, what string) *StructVal {
	G := r.p.skTyp("Global")
	v := symVal(r.as(x, G, what), G).(*StructVal)
	r.require(isStr(fieldByName(v, "Module"), mod), "%s may be of another module than %s", what, mod)
	if name != "" {
		r.require(isStr(fieldByName(v, "Name"), name), "%s may be another object than %s", what, name)
	}
	return v
}

// isStr: the text v is s.
func isStr(v Val, s string) *Node {
	g := bd.F
	for _, a := range altsOf(v) {
		g = or(g, and(a.g, eqText(a.t, s)))
	}
	return g
}

func eqText(t *Term, s string) *Node {
	if v, ok := t.strVal(); ok {
		return bconst(v == s)
	}
	return genEq(t, strTerm(s))
}

func (r *skRun) args(n int64) *Term {
	a := toTerm(r.field("Args"))
	r.require(eq0(polyOf(sub(lenTerm(a), intTerm(n)))), "the number of arguments is not checked to be %d", n)
	return a
}

func (r *skRun) dict() *Term {
	return r.as(toTerm(r.field("Args")), r.p.skTyp("Dict"), "the state of the object")
}

// key: attribute of the object.
func (r *skRun) key(d *Term, k string) *Term {
	r.require(bd.atom(mkTerm("has", "", types.Typ[types.Bool], d, strTerm(k))), "the attribute %s may be missing", k)
	return mkTerm("lookup", "", anyType(), d, strTerm(k))
}

func (r *skRun) intKey(d *Term, k string) *Term {
	return r.as(r.key(d, k), types.Typ[types.Int], "the attribute "+k)
}

// result: the final value of a field of the receiver.
func (r *skRun) result(q retEdge, name string) Val {
	if name == "" {
		return r.e.loadVal(q.st, r.recv, r.typ)
	}
	f := fieldOf(r.typ, name)
	if f == nil {
		panic(undecided("the field " + name + " of " + shortType(r.typ)))
	}
	return r.e.loadVal(q.st, fieldAddr(r.recv, f.Name(), f.Type()), f.Type())
}

// set: the field ends up as t.
func (r *skRun) set(name string, t *Term, what string) {
	r.todo[name] = true
	for _, q := range r.ok() {
		v := pick(q.g, r.result(q, name))
		r.must(v == t, q.pos, "%s.%s is not %s @@but %v", shortType(r.typ), name, what, v)
	}
}

// setTo: the field ends up as the struct or flag v.
func (r *skRun) setTo(name string, v Val, what string) {
	r.todo[name] = true
	for _, q := range r.ok() {
		r.must(r.same(q.g, r.result(q, name), v), q.pos, "%s.%s is not %s @@but %v", shortType(r.typ), name, what, vstr(r.result(q, name)))
	}
}

// same: a and b agree at g.
func (r *skRun) same(g *Node, a, b Val) bool {
	switch x := b.(type) {
	case *StructVal:
		y, ok := a.(*StructVal)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !r.same(g, y.f[i], x.f[i]) {
				return false
			}
		}
		return true
	case BoolVal:
		ok, _ := equivTh(asBool(a), x.n, g)
		return ok
	}
	for _, y := range altsOf(b) {
		for _, x := range altsOf(a) {
			w := and(g, x.g, y.g)
			if unsat(w) {
				continue
			}
			if s := resolver(w); x.t != y.t && s.term(x.t) != s.term(y.t) {
				return false
			}
		}
	}
	return true
}

// frame: the fields that are not restored here stay as they are.
func (r *skRun) frame() {
	if structOf(r.typ) == nil {
		if !r.todo[""] {
			for _, q := range r.ok() {
				r.must(r.same(q.g, r.result(q, ""), r.e.loadVal(newState(), r.recv, r.typ)), q.pos, "%s is changed", shortType(r.typ))
			}
		}
		return
	}
	st := structOf(r.typ)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if r.todo[f.Name()] || !skFields[f.Name()] {
			continue
		}
		a := fieldAddr(r.recv, f.Name(), f.Type())
		for _, q := range r.ok() {
			r.must(r.same(q.g, r.result(q, f.Name()), r.e.loadVal(newState(), a, f.Type())), q.pos, "%s.%s is not restored from here, but changed", shortType(r.typ), f.Name())
		}
	}
}

// refused: nothing else makes the method fail.
func (r *skRun) refused() {
	if unsat(r.good) {
		panic(undecided("what " + fname(r.f) + " accepts"))
	}
	facts := and(keptErrors(r.e), noErrors(r.e, r.good))
	if unsat(and(r.good, facts)) {
		panic(undecided("the errors of " + fname(r.f)))
	}
	for _, q := range r.rets {
		bad := and(q.g, not(errIsNil(lastVal(q.val))), r.good, facts)
		_, cx := entails(bad, bd.F)
		r.must(unsat(bad), q.pos, "%s refuses an object that is valid @@when %s", fname(r.f), cut(litsStr(cx), 400))
	}
}

// noErrors: variables that have no error if they had none before the loop.
func noErrors(e *Engine, good *Node) *Node {
	facts := bd.T
	for again := true; again; {
		again = false
		for _, l := range e.loopByID {
			for _, p := range errPhis(l) {
				f := implies(errIsNil(p.init), errIsNil(sc(p.sym)))
				if and(facts, not(f)) != bd.F && unsat(and(l.back, good, facts, errIsNil(sc(p.sym)), not(errIsNil(p.next)))) {
					facts = and(facts, f)
					again = true
				}
			}
		}
	}
	return facts
}

// parsed: what is restored from the object x, which must be of class name.
type skOut struct {
	x    *Effect
	to   *Term // where it is restored
	val  Val
	typ  types.Type
	loop *LoopInst
}

func (o *skOut) f(name string) Val { return fieldByName(o.val.(*StructVal), name) }

func (r *skRun) calls() (out []*Effect) {
	for _, x := range r.e.effects {
		if x.kind == "call" && x.fn == r.parse {
			out = append(out, x)
		}
	}
	return
}

// entity: where the call restores to, and the class.
func (r *skRun) entity(x *Effect) (*Term, types.Type) {
	t := pick(x.guard, x.args[0])
	if t == nil || t.op != "iface" {
		return nil, nil
	}
	io := t.obj.(*ifaceObj)
	pt, ok := io.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	return pick(x.guard, io.val), pt.Elem()
}

func (r *skRun) obj(class string, x *Term, what string) *skOut {
	return r.objIn(class, func(g *Node, t *Term) bool { return t == x }, what, nil)
}

func (r *skRun) objIn(class string, is func(g *Node, t *Term) bool, what string, in *LoopInst) *skOut {
	T := r.p.skTyp(class)
	var out *skOut
	for _, x := range r.calls() {
		to, t := r.entity(x)
		g := and(x.guard, r.on)
		if t == nil || !types.Identical(t, T) || unsat(g) || !is(g, pick(g, x.args[1])) {
			continue
		}
		if out != nil {
			panic(undecided(what + " is restored twice"))
		}
		out = &skOut{x: x, to: to, typ: T}
	}
	if !r.must(out != nil, r.f.Pos(), "%s is not restored as a %s", what, class) {
		panic(skStop{})
	}
	r.used[out.x] = true
	if len(out.x.loops) > 0 {
		out.loop = out.x.loops[len(out.x.loops)-1]
	}
	out.val = symVal(mkTerm("out", "0@"+out.x.ctx, T), T)
	r.fresh(out)
	if out.loop == nil {
		r.certain(out.x.guard, "%s is not always restored", what)
		r.require(errIsNil(out.x.res), "a failure to restore %s is not noticed", what)
	} else {
		r.may(implies(out.x.guard, errIsNil(out.x.res)))
		ok, _ := entails(and(out.loop.back, r.on), and(out.x.guard, errIsNil(out.x.res)))
		r.must(ok, out.x.pos, "a failure to restore %s is not noticed", what)
	}
	return out
}

type skStop struct{}

// fresh: classes that add to what they have are restored into new values.
func (r *skRun) fresh(o *skOut) {
	if !r.need[shortType(o.typ)] {
		return
	}
	why := r.notFresh(o.x, o.to)
	r.must(why == "", o.x.pos, "a %s is restored into a value that %s", shortType(o.typ), why)
}

func within(a, root *Term) bool {
	for a != nil {
		if a == root {
			return true
		}
		if (a.op == "field" || a.op == "index") && len(a.args) > 0 {
			a = a.args[0]
			continue
		}
		return false
	}
	return false
}

func (r *skRun) notFresh(x *Effect, to *Term) string {
	if to == nil {
		return "is not known"
	}
	base := to
	for base.op == "field" {
		base = base.args[0]
	}
	var zero *Effect
	for _, w := range r.e.effects {
		if w == x {
			break
		}
		touched := false
		switch w.kind {
		case "store":
			touched = w.addr != nil && (within(w.addr, to) || within(to, w.addr))
		case "call", "invoke":
			for _, a := range w.args {
				t := deIface(toTerm(a))
				touched = touched || t != nil && (t == to || within(to, t) && t.op != "sym" || within(t, to))
			}
		}
		if !touched || unsat(and(w.guard, x.guard)) {
			continue
		}
		if ok, _ := entails(x.guard, w.guard); ok && w.kind == "store" && within(to, w.addr) && sameLoops(w.loops, x.loops) && r.zeroAt(w, to) {
			zero = w
			continue
		}
		return "is in use already"
	}
	switch {
	case zero != nil:
		return ""
	case base.op == "index" && base.args[0].op == "make":
		if l := len(x.loops); l == 0 || base.args[1] != x.loops[l-1].iv {
			return "was used for another object"
		}
		return ""
	case len(x.loops) == 0:
		return ""
	}
	l := x.loops[len(x.loops)-1]
	if base.op == "alloc" && r.e.variant(l, base) {
		return ""
	}
	return "was used in an earlier round"
}

// zeroAt: the store w leaves a zero value at a.
func (r *skRun) zeroAt(w *Effect, a *Term) bool {
	pt, ok := w.addr.typ.Underlying().(*types.Pointer)
	return ok && r.same(bd.T, w.val, zeroVal(pt.Elem()))
}

func (r *skRun) dtype(v Val) (le *Node, kind Val) {
	s := v.(*StructVal)
	st := structOf(s.typ)
	for i := 0; i < st.NumFields(); i++ {
		if t, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && t.Kind() == types.Bool {
			le = asBool(s.f[i])
		} else if ok && t.Kind() == types.String {
			kind = s.f[i]
		}
	}
	if le == nil || kind == nil {
		panic(undecided("the fields of " + shortType(s.typ)))
	}
	return
}

// fieldT: the field of the struct value with the type t.
func fieldT(v Val, t types.Type) Val {
	s := v.(*StructVal)
	st := structOf(s.typ)
	var out Val
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), t) {
			if out != nil {
				panic(undecided("several fields of " + shortType(s.typ) + " have one type"))
			}
			out = s.f[i]
		}
	}
	if out == nil {
		panic(undecided("no field of type " + shortType(t) + " in " + shortType(s.typ)))
	}
	return out
}

// word: v is the 8 byte number at off of data, in the byte order le.
func (r *skRun) word(g *Node, v Val, le *Node, float bool, is func(t *Term) bool) bool {
	for _, w := range []struct {
		g  *Node
		le bool
	}{{and(g, le), true}, {and(g, not(le)), false}} {
		if unsat(w.g) {
			continue
		}
		if !isWord(pick(w.g, v), float, w.le, is) {
			return false
		}
	}
	return true
}

func isWord(t *Term, float, le bool, is func(t *Term) bool) bool {
	if t == nil {
		return false
	}
	if float {
		if t.op != "call" || t.aux != "math.Float64frombits" {
			return false
		}
		t = t.args[len(t.args)-1]
	} else {
		for hasPfx(t.op, "conv") && width(t.typ) == 64 && isInteger(t.typ) {
			t = t.args[0]
		}
	}
	if t.op != "call" && t.op != "ext" || !strings.Contains(t.aux, ").Uint64") || len(t.args) != 2 {
		return false
	}
	order := t.args[0]
	for order.op == "iface" {
		order = toTerm(order.obj.(*ifaceObj).val)
	}
	name := t.aux + " " + order.aux + " " + order.String()
	if order.typ != nil {
		name += " " + typeName(order.typ)
	}
	if strings.Contains(name, "littleEndian") == strings.Contains(name, "bigEndian") {
		return false
	}
	return strings.Contains(name, "littleEndian") == le && is(t.args[1])
}

// span: t is data[lo:lo+n] (or more after that).
func span(data, lo *Term, n int64) func(t *Term) bool {
	return func(t *Term) bool {
		x, l := t, intTerm(0)
		for x.op == "slice" && x != data {
			l = add(l, x.args[1])
			x = x.args[0]
		}
		return x == data && eq0(polyOf(sub(l, lo))) == bd.T
	}
}

// list: the field holds one element for every width bytes of data.
func (r *skRun) list(name string, data *Term, w int64, what string, el func(g *Node, v Val, data, lo *Term) string) {
	r.todo[name] = true
	r.require(eq0(polyOf(remTerm(lenTerm(data), intTerm(w), types.Typ[types.Int]))), "%s of a broken length may be accepted", what)
	for _, q := range r.ok() {
		L := pick(q.g, r.result(q, name))
		if !r.must(L != nil, q.pos, "%s.%s is not one list", shortType(r.typ), name) {
			continue
		}
		// what was there before
		f := fieldOf(r.typ, name)
		r.e.emptyLists = map[*Term]bool{toTerm(r.e.loadVal(newState(), fieldAddr(r.recv, name, f.Type()), f.Type())): false}
		parts, sz, why := r.e.buildOf(L)
		for _, used := range r.e.emptyLists {
			if used {
				r.need[shortType(r.typ)] = true
			}
		}
		r.e.emptyLists = nil
		if !r.must(why == "" && len(parts) == 1, q.pos, "%s.%s is not made of %s @@%s", shortType(r.typ), name, what, why) {
			continue
		}
		d := parts[0]
		if !r.must(len(d.x.loops) == 1 && d.all == nil && (d.idx != nil || len(d.el) == 1), d.x.pos, "%s are not added one by one", what) {
			continue
		}
		l := d.x.loops[0]
		v := d.val
		if d.idx == nil {
			v = d.x.args[len(d.x.args)-1]
		}
		g := and(d.x.guard, r.on)
		src, lo, left := data, mulT(l.iv, w), (*Term)(nil)
		if src1 := r.rest(l, data, w, r.on); src1 != nil {
			src, lo, left = src1, intTerm(0), src1
		}
		if s := el(g, v, src, lo); s != "" {
			r.must(false, d.x.pos, "%s.%s: %s", shortType(r.typ), name, s)
		}
		full := divTerm(lenTerm(data), intTerm(w), types.Typ[types.Int])
		ok1, _ := entails(q.g, le0(polyOf(sub(full, l.iv))))
		ok2, _ := entails(q.g, le0(polyOf(sub(lenTerm(data), mulT(l.iv, w)))))
		if left != nil {
			ok1 = unsat(and(q.g, not(le0(polyOf(sub(lenTerm(left), intTerm(w-1)))))))
		}
		r.must(ok1 || ok2, d.x.pos, "not all of %s are taken", what)
		every, _ := entails(and(l.back, r.on), d.x.guard)
		r.must(every, d.x.pos, "some of %s are left out", what)
		if d.idx != nil {
			ok, _ := entails(g, eq0(polyOf(sub(d.idx, l.iv))))
			r.must(ok, d.x.pos, "%s are not kept in order", what)
			ok, _ = entails(q.g, eq0(polyOf(sub(sz, full))))
			ok2, _ := entails(q.g, eq0(polyOf(sub(mulT(sz, w), lenTerm(data)))))
			r.must(ok || ok2, d.x.pos, "the list of %s has another length", what)
		}
	}
}

func mulT(t *Term, n int64) *Term { return mul(t, intTerm(n)) }

// rest: what is left of data in a loop that takes w bytes from its front.
func (r *skRun) rest(l *LoopInst, data *Term, w int64, g *Node) *Term {
	for _, ph := range append(append([]*PhiInfo{}, l.phis...), l.mem...) {
		if ph.sym == nil || ph.next == nil || pick(and(l.entry, g), ph.init) != data {
			continue
		}
		n := pick(and(l.back, g), ph.next)
		if n != nil && n.op == "slice" && n.args[0] == ph.sym && eq0(polyOf(sub(n.args[1], intTerm(w)))) == bd.T && eq0(polyOf(sub(n.args[2], lenTerm(ph.sym)))) == bd.T {
			return ph.sym
		}
	}
	return nil
}

// ints and floats: the elements of a list of numbers.
func (r *skRun) numbers(name string, data *Term, le *Node, float bool, what string) {
	r.list(name, data, 8, what, func(g *Node, v Val, data, lo *Term) string {
		if !r.word(g, v, le, float, span(data, lo, 8)) {
			return "an element is not decoded from its 8 bytes @@" + cut(vstr(v), 300)
		}
		return ""
	})
}

// array: an array of numbers restored from x, and its data.
func (r *skRun) array(x *Term, kind, what string) (o *skOut, le *Node, data *Term) {
	o = r.obj("NumpyArrayRaw", x, what)
	le, k := r.dtype(fieldT(o.val, r.p.skTyp("NumpyDType")))
	r.require(isStr(k, kind), "%s may have another type than %s", what, kind)
	return o, le, toTerm(fieldT(o.val, r.p.skTyp("NumpyRawBytes")))
}

func (o *skOut) shape() *Term { return toTerm(fieldT(o.val, types.NewSlice(types.Typ[types.Int]))) }

func (r *skRun) dims(o *skOut, what string, n ...*Term) {
	s := o.shape()
	r.require(eq0(polyOf(sub(lenTerm(s), intTerm(int64(len(n)))))), "%s may have another number of dimensions than %d", what, len(n))
	for i, t := range n {
		r.require(eq0(polyOf(sub(at(s, int64(i), types.Typ[types.Int]), t))), "dimension %d of %s is not checked", i, what)
	}
}

// little: bytes of the other order are refused, unless they are decoded.
func (r *skRun) little(le *Node, what string) {
	if !unsatIn(r.ok(), not(le)) {
		return // decided where they are decoded
	}
	r.may(le)
}

func unsatIn(qs []retEdge, h *Node) bool {
	for _, q := range qs {
		if !unsat(and(q.g, h)) {
			return false
		}
	}
	return true
}

func (r *skRun) callable(mod, name string) {
	r.global(toTerm(r.field("Callable")), mod, name, "the function that makes the object")
}

// instance: copy_reg._reconstructor(class, ...)
func (r *skRun) instance(mod, name string) *StructVal {
	r.callable("copy_reg", "_reconstructor")
	return r.global(r.elem(r.args(3), 0), mod, name, "the class")
}

var skFields = map[string]bool{}

type skSpec struct{ reduce, build func(r *skRun) }

var skNodeFields = []struct {
	name  string
	float bool
}{{"LeftChild", false}, {"RightChild", false}, {"Feature", false}, {"Threshold", true}, {"Impurity", true}, {"NNodeSamples", false}, {"WeightedNNodeSamples", true}}

var skSpecs = map[string]skSpec{
	"SklearnGradientBoosting": {func(r *skRun) {
		r.instance("sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
	}, (*skRun).boosting},
	"SklearnDecisionTreeRegressor": {func(r *skRun) {
		r.instance("sklearn.tree.tree", "DecisionTreeRegressor")
	}, func(r *skRun) {
		d := r.dict()
		o := r.obj("NumpyScalarRaw", r.key(d, "n_classes_"), "the attribute n_classes_")
		le, k := r.dtype(fieldT(o.val, r.p.skTyp("NumpyDType")))
		r.require(isStr(k, "i8"), "the attribute n_classes_ may have another type than i8")
		r.little(le, "the attribute n_classes_")
		data := toTerm(fieldT(o.val, r.p.skTyp("NumpyRawBytes")))
		r.scalar("NClasses", data, le, false, "the attribute n_classes_")
		r.set("MaxFeatures", r.intKey(d, "max_features_"), "the attribute max_features_")
		r.set("NOutputs", r.intKey(d, "n_outputs_"), "the attribute n_outputs_")
		r.setTo("Tree", r.obj("SklearnTree", r.key(d, "tree_"), "the attribute tree_").val, "the attribute tree_")
	}},
	"SklearnTree": {func(r *skRun) {
		r.callable("sklearn.tree._tree", "Tree")
		a := r.args(3)
		n := r.as(r.elem(a, 2), types.Typ[types.Int], "the number of outputs")
		r.set("NOutputs", n, "argument 2")
		o, le, data := r.array(r.elem(a, 1), "i8", "the array of classes")
		r.little(le, "the array of classes")
		r.dims(o, "the array of classes", n)
		r.numbers("Classes", data, le, false, "the array of classes")
	}, func(r *skRun) {
		d := r.dict()
		r.set("NNodes", r.intKey(d, "node_count"), "the attribute node_count")
		_, _, data := r.array(r.key(d, "nodes"), "V56", "the array of nodes")
		r.list("Nodes", data, 56, "the array of nodes", func(g *Node, v Val, data, lo *Term) string {
			n, ok := v.(*StructVal)
			if !ok {
				return "a node is " + cut(vstr(v), 200)
			}
			for i, f := range skNodeFields {
				if !r.word(g, fieldByName(n, f.name), bd.T, f.float, span(data, add(lo, intTerm(int64(8*i))), 8)) {
					return "the field " + f.name + " of a node is not at its place in the record"
				}
			}
			return ""
		})
		_, le, data := r.array(r.key(d, "values"), "f8", "the array of values")
		r.numbers("Values", data, le, true, "the array of values")
	}},
	"SKlearnInitEstimator": {func(r *skRun) {
		v := r.instance("sklearn.ensemble.gradient_boosting", "")
		r.set("Name", toTerm(fieldByName(v, "Name")), "the name of the class")
	}, (*skRun).initEstimator},
	"NumpyArrayRaw": {func(r *skRun) {
		r.callable("numpy.core.multiarray", "_reconstruct")
		r.global(r.elem(r.args(3), 0), "numpy", "ndarray", "the class")
	}, (*skRun).ndarray},
	"NumpyRawBytes": {func(r *skRun) {
		r.callable("_codecs", "encode")
		r.setBytes("", r.as(r.elem(r.args(2), 0), r.p.skTyp("Unicode"), "the text of the bytes"), "the encoded text")
	}, func(r *skRun) {}},
	"NumpyDType": {func(r *skRun) {
		r.callable("numpy", "dtype")
		r.setBytes(r.basicField(types.String), r.as(r.elem(r.args(3), 0), r.p.skTyp("Unicode"), "the name of the type"), "the name of the type")
		r.setTo(r.basicField(types.Bool), BoolVal{bd.T}, "little endian at first")
	}, func(r *skRun) {
		t := r.as(toTerm(r.field("Args")), r.p.skTyp("Tuple"), "the state of the object")
		r.require(eq0(polyOf(sub(lenTerm(t), intTerm(8)))), "the length of the state is not checked to be 8")
		o := r.as(r.elem(t, 1), r.p.skTyp("Unicode"), "the byte order")
		r.require(eq0(polyOf(sub(lenTerm(o), intTerm(1)))), "the length of the byte order is not checked to be 1")
		first := at(o, 0, types.Typ[types.Byte])
		little := eq0(polyOf(sub(first, intTerm('<'))))
		name := r.basicField(types.Bool)
		r.todo[name] = true
		for _, q := range r.ok() {
			v := r.result(q, name)
			g := q.g
			for _, a := range support(asBool(v)) {
				// the text of one byte is compared
				if a.op == "eq" && textOf(a.args[0]) == o && isConstStr(a.args[1], "<") {
					g = and(g, or(and(bd.atom(a), little), and(not(bd.atom(a)), not(little))))
				}
			}
			r.must(r.same(g, v, BoolVal{little}), q.pos, "%s.%s is not set for '<' only @@but %v", shortType(r.typ), name, vstr(v))
		}
	}},
	"NumpyScalarRaw": {func(r *skRun) {
		r.callable("numpy.core.multiarray", "scalar")
		a := r.args(2)
		r.part("NumpyDType", r.elem(a, 0), "the type")
		r.part("NumpyRawBytes", r.elem(a, 1), "the bytes")
	}, func(r *skRun) {}},
}

// basicField: the only field of that kind.
func (r *skRun) basicField(k types.BasicKind) string {
	st := structOf(r.typ)
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == k {
			return st.Field(i).Name()
		}
	}
	panic(undecided("the fields of " + shortType(r.typ)))
}

// part: the field of that class is restored from x.
func (r *skRun) part(class string, x *Term, what string) {
	T := r.p.skTyp(class)
	st := structOf(r.typ)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), T) {
			r.setTo(st.Field(i).Name(), r.obj(class, x, what).val, what)
			return
		}
	}
	panic(undecided("no field for " + what))
}

// setBytes: the field is the text t.
func (r *skRun) setBytes(name string, t *Term, what string) {
	r.todo[name] = true
	for _, q := range r.ok() {
		v := pick(q.g, r.result(q, name))
		w := v
		for w != nil && hasPfx(w.op, "conv") {
			w = w.args[0]
		}
		r.must(w == t, q.pos, "%s.%s is not %s @@but %v", shortType(r.typ), name, what, v)
	}
}

// scalar: the field is the number in the 8 bytes of data.
func (r *skRun) scalar(name string, data *Term, le *Node, float bool, what string) {
	r.todo[name] = true
	for _, q := range r.ok() {
		v := r.result(q, name)
		r.must(r.word(q.g, v, le, float, span(data, intTerm(0), 8)), q.pos, "%s.%s is not decoded from the bytes of %s @@but %s", shortType(r.typ), name, what, cut(vstr(v), 300))
	}
}

func (r *skRun) boosting() {
	d := r.dict()
	n := r.intKey(d, "n_classes_")
	r.set("NClasses", n, "the attribute n_classes_")
	r.set("LearningRate", r.as(r.key(d, "learning_rate"), types.Typ[types.Float64], "the attribute learning_rate"), "the attribute learning_rate")
	r.setTo("InitEstimator", r.obj("SKlearnInitEstimator", r.key(d, "init_"), "the attribute init_").val, "the attribute init_")
	o, le, data := r.array(r.key(d, "classes_"), "i8", "the attribute classes_")
	r.little(le, "the attribute classes_")
	r.dims(o, "the attribute classes_", n)
	r.numbers("Classes", data, le, false, "the attribute classes_")
	r.set("MaxFeatures", r.intKey(d, "max_features_"), "the attribute max_features_")
	r.set("NFeatures", r.intKey(d, "n_features_"), "the attribute n_features_")
	m := r.intKey(d, "n_estimators")
	r.set("NEstimators", m, "the attribute n_estimators")
	// not used
	loss := mkTerm("lookup", "", anyType(), d, strTerm("loss"))
	r.may(bd.atom(mkTerm("has", "", types.Typ[types.Bool], d, strTerm("loss"))))
	r.may(isType(loss, r.p.skTyp("Unicode")))

	o = r.obj("NumpyArrayRaw", r.key(d, "estimators_"), "the attribute estimators_")
	list := toTerm(fieldT(o.val, types.NewSlice(anyType())))
	s := o.shape()
	r.require(eq0(polyOf(sub(lenTerm(s), intTerm(2)))), "estimators_ may have another number of dimensions than 2")
	two := eq0(polyOf(sub(n, intTerm(2))))
	s0, s1 := at(s, 0, types.Typ[types.Int]), at(s, 1, types.Typ[types.Int])
	r.require(eq0(polyOf(sub(s0, m))), "dimension 0 of estimators_ is not checked to be n_estimators")
	r.require(implies(two, eq0(polyOf(sub(s1, intTerm(1))))), "dimension 1 of estimators_ is not checked to be 1 for two classes")
	r.require(implies(not(two), eq0(polyOf(sub(s1, n)))), "dimension 1 of estimators_ is not checked to be the number of classes")
	// products of equal factors are equal
	same := bd.T
	for _, w := range []*Term{intTerm(1), n} {
		for _, p := range [][2]*Term{{m, w}, {s0, w}, {m, s1}} {
			eq := and(eq0(polyOf(sub(s0, m))), eq0(polyOf(sub(s1, w))))
			same = and(same, implies(eq, eq0(polyOf(sub(mul(s0, s1), mul(p[0], p[1]))))))
		}
	}
	number := eq0(polyOf(sub(lenTerm(list), mul(s0, s1))))
	r.may(and(same, number))
	r.certain(implies(same, number), "the number of elements of estimators_ is not checked")
	r.each("Estimators", "SklearnDecisionTreeRegressor", list, "the attribute estimators_")
}

// sized: n is the number of elements of the list, whatever the cases are that n
// was chosen by.
func (r *skRun) sized(g *Node, n, list *Term) bool {
	if ok, _ := entails(g, eq0(polyOf(sub(n, lenTerm(list))))); ok {
		return true
	}
	cases := []*Node{g}
	gv := map[*Term]bool{}
	findSub(n, func(t *Term) bool {
		if t.op == "gv" && !gv[t] && len(gv) < 4 {
			gv[t] = true
			var next []*Node
			for _, h := range cases {
				for _, a := range t.obj.(*Scalar).alts {
					if k := and(h, a.g); !unsat(k) {
						next = append(next, k)
					}
				}
			}
			cases = next
		}
		return false
	})
	for _, h := range cases {
		if ok, _ := entails(h, eq0(polyOf(sub(resolver(h).term(n), lenTerm(list))))); !ok {
			return false
		}
	}
	return true
}

// each: the field holds what is restored from each element of the list.
func (r *skRun) each(name, class string, list *Term, what string) {
	r.todo[name] = true
	o := r.objIn(class, func(g *Node, t *Term) bool {
		return t != nil && t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == list
	}, "an element of "+what, nil)
	pos := o.x.pos
	if !r.must(len(o.x.loops) == 1, pos, "the elements of %s are not restored one by one", what) {
		return
	}
	l := o.loop
	i := pick(o.x.guard, o.x.args[1]).args[0].args[1]
	in := func(h *Node) bool { ok, _ := entails(and(o.x.guard, r.on), h); return ok }
	r.must(in(eq0(polyOf(sub(i, l.iv)))), pos, "the elements of %s are not taken in order", what)
	every, _ := entails(and(l.back, r.on), o.x.guard)
	r.must(every, pos, "some elements of %s are left out", what)
	for _, q := range r.ok() {
		done, _ := entails(q.g, le0(polyOf(sub(lenTerm(list), l.iv))))
		r.must(done, q.pos, "not all elements of %s are restored", what)
		L := pick(q.g, r.result(q, name))
		if !r.must(L != nil, q.pos, "%s.%s is not one list", shortType(r.typ), name) {
			continue
		}
		if o.to.op == "index" && o.to.args[0] == L && L.op == "make" {
			r.must(in(eq0(polyOf(sub(o.to.args[1], l.iv)))), pos, "%s is not kept in order", what)
			r.must(r.sized(q.g, L.args[0], list), q.pos, "%s.%s has another length than %s", shortType(r.typ), name, what)
			for _, x := range r.e.effects {
				if x.kind == "store" && x.addr != nil && within(x.addr, L) {
					r.must(false, x.pos, "an element of %s.%s is changed", shortType(r.typ), name)
				}
			}
			continue
		}
		parts, sz, why := r.e.buildOf(L)
		if !r.must(why == "" && len(parts) == 1, q.pos, "%s.%s is not made of %s @@%s", shortType(r.typ), name, what, why) {
			continue
		}
		d := parts[0]
		if !r.must(d.all == nil && len(d.x.loops) == 1 && d.x.loops[0] == l, d.x.pos, "%s.%s is not made element by element", shortType(r.typ), name) {
			continue
		}
		v := d.val
		if d.idx == nil {
			v = d.x.args[len(d.x.args)-1]
		}
		r.must(r.same(and(d.x.guard, r.on), v, o.val), d.x.pos, "an element of %s.%s is not what is restored from %s", shortType(r.typ), name, what)
		every, _ := entails(and(l.back, r.on), d.x.guard)
		r.must(every, d.x.pos, "some elements of %s are left out", what)
		if d.idx != nil {
			r.must(in(eq0(polyOf(sub(d.idx, l.iv)))), pos, "%s is not kept in order", what)
			r.must(r.sized(q.g, sz, list), q.pos, "%s.%s has another length than %s", shortType(r.typ), name, what)
		}
	}
}

func (r *skRun) initEstimator() {
	name := r.e.loadVal(newState(), fieldAddr(r.recv, "Name", types.Typ[types.String]), types.Typ[types.String])
	odds, prior := isStr(name, "LogOddsEstimator"), isStr(name, "PriorProbabilityEstimator")
	excl := not(and(odds, prior))
	r.require(or(odds, prior), "an unknown class of initial estimators is accepted")
	r.good = and(r.good, excl)

	r.on = and(odds, excl)
	d := r.dict()
	o := r.obj("NumpyScalarRaw", r.key(d, "prior"), "the attribute prior")
	le, k := r.dtype(fieldT(o.val, r.p.skTyp("NumpyDType")))
	r.require(isStr(k, "f8"), "the attribute prior may have another type than f8")
	data := toTerm(fieldT(o.val, r.p.skTyp("NumpyRawBytes")))
	r.todo["Prior"] = true
	for _, q := range r.ok() {
		v := r.result(q, "Prior")
		L := pick(q.g, v)
		if r.must(L != nil, q.pos, "the prior is not one list") {
			r.one("Prior", L, q, func(g *Node, v Val) bool { return r.word(g, v, le, true, span(data, intTerm(0), 8)) }, "the attribute prior")
		}
	}

	r.on = and(prior, excl)
	d = r.dict()
	_, le, data = r.array(r.key(d, "priors"), "f8", "the attribute priors")
	r.numbers("Prior", data, le, true, "the attribute priors")
	r.on = bd.T
}

// one: a list of one element.
func (r *skRun) one(name string, L *Term, q retEdge, is func(g *Node, v Val) bool, what string) {
	f := fieldOf(r.typ, name)
	old := toTerm(r.e.loadVal(newState(), fieldAddr(r.recv, name, f.Type()), f.Type()))
	r.e.emptyLists = map[*Term]bool{old: false}
	parts, _, why := r.e.buildOf(L)
	if r.e.emptyLists[old] {
		r.need[shortType(r.typ)] = true
	}
	r.e.emptyLists = nil
	if L.op == "slice" {
		// a literal
		if vs := r.e.sliceElems(q.st, sc(L)); len(vs) == 1 {
			r.must(is(q.g, vs[0]), q.pos, "%s.%s is not %s", shortType(r.typ), name, what)
			return
		}
	}
	if !r.must(why == "" && len(parts) == 1 && len(parts[0].x.loops) == 0 && parts[0].all == nil, q.pos, "%s.%s is not made of %s @@%s", shortType(r.typ), name, what, why) {
		return
	}
	v := parts[0].val
	if parts[0].idx == nil {
		v = parts[0].x.args[len(parts[0].x.args)-1]
	}
	r.must(is(q.g, v), parts[0].x.pos, "%s.%s is not %s @@but %s", shortType(r.typ), name, what, cut(vstr(v), 300))
}

func (r *skRun) ndarray() {
	T := r.p.skTyp("Tuple")
	t := r.as(toTerm(r.field("Args")), T, "the state of the object")
	r.require(eq0(polyOf(sub(lenTerm(t), intTerm(5)))), "the length of the state is not checked to be 5")
	r.may(isType(r.elem(t, 0), types.Typ[types.Int])) // version
	dims := r.as(r.elem(t, 1), T, "the shape")
	r.shapeOf(dims)
	r.part("NumpyDType", r.elem(t, 2), "the type of the elements")
	fortran := r.as(r.elem(t, 3), types.Typ[types.Int], "the order of the elements")
	r.require(eq0(polyOf(fortran)), "an array with its dimensions in Fortran order is accepted")
	x := r.elem(t, 4)
	B, R, L := isType(x, r.p.skTyp("Build")), isType(x, types.NewPointer(r.p.skTyp("Reduce"))), isType(x, types.NewPointer(r.p.skTyp("List")))
	excl := and(not(and(B, R)), not(and(B, L)), not(and(R, L)))
	r.good = and(r.good, excl, or(B, R, L))
	list, bytes := "", ""
	st := structOf(r.typ)
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type(); {
		case types.Identical(t, types.NewSlice(anyType())):
			list = st.Field(i).Name()
		case types.Identical(t, r.p.skTyp("NumpyRawBytes")):
			bytes = st.Field(i).Name()
		}
	}
	r.on = and(or(B, R), excl)
	data := r.obj("NumpyRawBytes", x, "the data")
	r.setTo(bytes, data.val, "the data")
	r.on = and(L, excl)
	lp := types.NewPointer(r.p.skTyp("List"))
	r.todo[list] = true
	for _, q := range r.ok() {
		v := pick(q.g, r.result(q, list))
		w := v
		for w != nil && (hasPfx(w.op, "conv") || w.op == "slice" && isZeroI(w.args[1]) && eq0(polyOf(sub(w.args[2], lenTerm(w.args[0])))) == bd.T) {
			w = w.args[0]
		}
		r.must(w != nil && w.op == "load" && w.args[0] == asType(x, lp), q.pos, "%s.%s is not the list of elements @@but %v", shortType(r.typ), list, v)
	}
	r.on = bd.T
	// another kind may be left to ParseClass, which refuses it
	r.certain(or(B, R, L, and(data.x.guard, errIsNil(data.x.res))), "data of an unknown kind are accepted")
}

// shapeOf: the dimensions, in order.
func (r *skRun) shapeOf(dims *Term) {
	st := structOf(r.typ)
	name := ""
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.NewSlice(types.Typ[types.Int])) {
			name = st.Field(i).Name()
		}
	}
	r.todo[name] = true
	for _, q := range r.ok() {
		L := pick(q.g, r.result(q, name))
		if !r.must(L != nil, q.pos, "the shape is not one list") {
			continue
		}
		parts, sz, why := r.e.buildOf(L)
		if !r.must(why == "" && len(parts) == 1, q.pos, "the shape is not made of the dimensions @@%s", why) {
			continue
		}
		d := parts[0]
		if !r.must(len(d.x.loops) == 1 && d.all == nil && (d.idx != nil || len(d.el) == 1), d.x.pos, "the dimensions are not added one by one") {
			continue
		}
		l := d.x.loops[0]
		v := d.val
		if d.idx == nil {
			v = d.x.args[len(d.x.args)-1]
		}
		el := mkTerm("load", "", anyType(), indexAddr(dims, l.iv, anyType()))
		is := isType(el, types.Typ[types.Int])
		r.may(is)
		g := and(d.x.guard, l.back, r.on) // rounds that go on
		r.must(pick(g, v) == asType(el, types.Typ[types.Int]), d.x.pos, "a dimension is not the element of the tuple @@but %s", cut(vstr(v), 300))
		ok, _ := entails(g, is)
		r.must(ok, d.x.pos, "a dimension is not checked to be an int")
		ok, _ = entails(q.g, le0(polyOf(sub(lenTerm(dims), l.iv))))
		r.must(ok, d.x.pos, "not all dimensions are taken")
		ok, _ = entails(and(l.back, r.on), d.x.guard)
		r.must(ok, d.x.pos, "some dimensions are left out")
		if d.idx != nil {
			ok, _ := entails(g, eq0(polyOf(sub(d.idx, l.iv))))
			r.must(ok, d.x.pos, "the dimensions are not kept in order")
			ok, _ = entails(q.g, eq0(polyOf(sub(sz, lenTerm(dims)))))
			r.must(ok, d.x.pos, "the shape has another length")
		}
	}
}

// method evaluates one method of a class.
func (k *skClass) method(class, name string, spec func(r *skRun)) {
	T := k.p.skTyp(class)
	f := k.p.prog.LookupMethod(types.NewPointer(T), k.parse.Pkg.Pkg, name)
	if !k.c.must(f != nil, skRule, nil, 0, "the method %s of %s was not found", name, class) {
		return
	}
	k.c.guarded(skRule, f, func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(skStop); !ok {
					panic(x)
				}
			}
		}()
		k.c.analysed(f)
		e, rets := k.p.runRoot(f, func(g *ssa.Function) bool { return g == k.parse })
		ps := e.symParams(f)
		r := &skRun{skClass: k, f: f, e: e, typ: T, recv: toTerm(ps[0]), rets: rets, on: bd.T, good: bd.T, todo: map[string]bool{}, used: map[*Effect]bool{}}
		var ok bool
		r.arg, ok = ps[1].(*StructVal)
		if !ok {
			panic(undecided("the argument of " + fname(f)))
		}
		r.must(len(r.ok()) > 0, f.Pos(), "%s never succeeds", fname(f))
		spec(r)
		r.frame()
		r.refused()
	})
}

func ruleSk(p *Program, c *Ctx) {
	parse := p.fnOpt(skPkg, "ParseClass")
	if !c.must(parse != nil, skRule, nil, 0, "ParseClass was not found") {
		return
	}
	k := &skClass{p: p, c: c, parse: parse, need: map[string]bool{}}
	k.contract()
	// parts before the classes that hold them
	for _, n := range []string{"NumpyRawBytes", "NumpyDType", "NumpyScalarRaw", "NumpyArrayRaw", "SklearnTree", "SKlearnInitEstimator", "SklearnDecisionTreeRegressor", "SklearnGradientBoosting"} {
		k.method(n, "Reduce", skSpecs[n].reduce)
		k.method(n, "Build", skSpecs[n].build)
		if st := structOf(p.skTyp(n)); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if t := st.Field(i).Type(); k.need[shortType(t)] {
					k.need[n] = true
				}
			}
		}
	}
	k.root()
	c.floor(skRule, 100)
}

// contract: what ParseClass does with the class and the object.
func (k *skClass) contract() {
	f, p := k.parse, k.p
	k.c.guarded(skRule, f, func() {
		k.c.analysed(f)
		e, rets := p.runRoot(f, func(g *ssa.Function) bool { return false })
		ps := e.symParams(f)
		r := &skRun{skClass: k, f: f, e: e, rets: rets, on: bd.T, good: bd.T}
		ent, x := toTerm(ps[0]), toTerm(ps[1])
		BT, RT := p.skTyp("Build"), p.skTyp("Reduce")
		RP := types.NewPointer(RT)
		isB, isR := isType(x, BT), isType(x, RP)
		excl := not(and(isB, isR))
		// the state that was added to the object later
		bf := ""
		st := structOf(RT)
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), types.NewPointer(BT)) {
				bf = st.Field(i).Name()
			}
		}
		built := bd.F
		var late Val
		if bf != "" {
			v := e.loadVal(newState(), fieldAddr(asType(x, RP), bf, types.NewPointer(BT)), types.NewPointer(BT))
			built = not(isNil(toTerm(v)))
			late = e.loadVal(newState(), toTerm(v), BT)
		}
		r.require(implies(excl, or(isB, isR)), "an object of another kind is accepted")
		r.good = and(r.good, excl)
		for _, m := range []struct {
			on    *Node
			build Val
			what  string
		}{
			{and(isB, excl), symVal(asType(x, BT), BT), "an object with a state"},
			{and(isR, excl, built), late, "an object with a state added later"},
			{and(isR, excl, not(built)), nil, "an object without a state"},
		} {
			r.on = m.on
			if unsat(m.on) {
				continue
			}
			from := asType(x, RP)
			if m.build != nil {
				o := toTerm(fieldByName(m.build.(*StructVal), "Object"))
				r.require(isType(o, RP), "%s is not checked to be a Reduce", m.what)
				from = asType(o, RP)
			}
			want := e.loadVal(newState(), from, RT)
			red := k.invoked(r, ent, "Reduce", want, m.what, true)
			bld := k.invoked(r, ent, "Build", m.build, m.what, m.build != nil)
			if red != nil && bld != nil {
				r.must(red.seq < bld.seq, bld.pos, "the state of %s is set before the object is made", m.what)
			}
		}
		r.on = bd.T
		for _, x := range e.effects {
			if (x.kind == "store" || x.kind == "mapupdate") && x.addr != nil && !isFreshRoot(rootOf(x.addr)) {
				r.must(false, x.pos, "ParseClass changes the object it restores from")
			}
		}
		r.refused()
	})
}

// invoked: the method of the class is called once with v, and its failure is
// the failure of ParseClass.
func (k *skClass) invoked(r *skRun, ent *Term, name string, v Val, what string, must bool) (out *Effect) {
	pos := r.f.Pos()
	for _, x := range r.e.effects {
		if x.kind != "invoke" && x.kind != "call" || !hasSuffix(x.name, ")."+name) || unsat(and(x.guard, r.on)) {
			continue
		}
		if !must {
			r.must(unsat(and(x.guard, r.on)), x.pos, "%s is called for %s", name, what)
			continue
		}
		g := and(x.guard, r.on)
		if !r.must(out == nil, x.pos, "%s is called twice for %s", name, what) {
			continue
		}
		out = x
		to := x.addr
		if to == nil && len(x.args) > 1 {
			to = pick(g, x.args[0])
		}
		r.must(to == ent, x.pos, "%s is called on something else than the class", name)
		r.must(r.same(g, x.args[len(x.args)-1], v), x.pos, "%s of %s is called with something else @@: %s", name, what, cut(vstr(x.args[len(x.args)-1]), 300))
		r.require(errIsNil(x.res), "a failure of %s is not noticed", name)
		r.certain(x.guard, "%s is not always called for %s", name, what)
	}
	if must {
		r.must(out != nil, pos, "%s is not called for %s", name, what)
	}
	return
}

func (p *Program) reaches(f, g *ssa.Function) bool {
	_, ok := p.effects().reach(f)[g]
	return ok
}

// root: the model is restored from what the decoder returned.
func (k *skClass) root() {
	n := 0
	loaders := map[*ssa.Function]bool{}
	for _, f := range k.p.modelLoaders() {
		loaders[f] = true
	}
	for _, f := range k.p.modelLoaders() {
		f := f
		k.c.guarded(skRule, f, func() {
			var dec *ssa.Function
			nd := k.p.fn(skPkg, "NewDecoder")
			dec = k.p.prog.LookupMethod(nd.Signature.Results().At(0).Type(), nd.Pkg.Pkg, "Decode")
			e, rets := k.p.runRoot(f, func(g *ssa.Function) bool {
				return g == k.parse || g == dec || g != f && k.p.stepFn()(g) && (loaders[g] || !k.p.reaches(g, dec))
			})
			r := &skRun{skClass: k, f: f, e: e, rets: rets, on: bd.T, good: bd.T, used: map[*Effect]bool{}}
			var d []*Effect
			for _, x := range e.effects {
				if x.kind == "call" && x.fn == dec {
					d = append(d, x)
				}
			}
			if len(r.calls()) == 0 {
				return
			}
			n++
			k.c.analysed(f)
			if !r.must(len(d) == 1, f.Pos(), "%d calls of the decoder in %s", len(d), fname(f)) {
				return
			}
			for _, x := range r.calls() {
				to, t := r.entity(x)
				r.must(t != nil && shortType(t) == "SklearnGradientBoosting", x.pos, "another class than gradient boosting is restored")
				if t == nil {
					continue
				}
				r.fresh(&skOut{x: x, to: to, typ: t})
				res, ok := d[0].res.(*TupleVal)
				r.must(ok && pick(x.guard, x.args[1]) == toTerm(res.v[0]), x.pos, "the model is not restored from the result of the decoder")
				r.require(errIsNil(x.res), "a failure to restore the model is not noticed")
			}
		})
	}
	k.c.must(n == 1, skRule, nil, 0, "%d loaders of scikit-learn models found", n)
}

func init() {
	for _, t := range []string{"NClasses", "Classes", "NEstimators", "MaxFeatures", "NFeatures", "Estimators", "LearningRate", "InitEstimator", "Tree", "NOutputs", "NNodes", "Nodes", "Values", "Name", "Prior", "Type", "LittleEndinan", "Shape", "Data", "DataList"} {
		skFields[t] = true
	}
	reg("C20", func(p *Program, c *Ctx) {
		ruleSk(p, c)
		ruleNodesOf(p, c, "sklearn")
	}, symText+"Rule: every method that restores a python object (Reduce and Build of the gradient boosting model, its initial estimator, the regressor, the tree, numpy arrays, scalars, dtypes and raw bytes) is evaluated on an arbitrary receiver and an arbitrary decoded object. On every path that succeeds each field of the receiver equals the attribute, tuple element or bytes that define it (decoded in the byte order of the dtype, one element per item, in order, none left out, node records split at the fixed offsets), the kinds, names, shapes and lengths of what was read were checked, and fields restored elsewhere keep their values; no other condition may lead to an error. ParseClass is taken by its contract in these methods, and the contract is checked on ParseClass itself: Reduce of the given class with the object made, then Build with its state, nothing else. Objects of classes that add to what they have are restored into fresh values. The loader restores one gradient boosting model from the result of the decoder, and turns its trees into nodes as C11's rule demands for every other format.", asmInts, asmFloat, asmAlias, "encoding/binary, math.Float64frombits and conversions between text and bytes behave as documented")
}

func isConstStr(t *Term, s string) bool {
	v, ok := t.strVal()
	return ok && v == s
}

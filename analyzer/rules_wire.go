package main

// C18: the grammar of XGBoost's binary files. Every read of the reader
// functions is listed in order, with the layout of the data type it fills,
// and matched with the layout of the format.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wirePart: one number of a record, as encoding/binary lays it out.
type wirePart struct {
	kind byte // i u f
	bits int
	name string // name of the field, "" for the elements of an array
	path []int
}

func wireLayout(t types.Type, name string, path []int) ([]wirePart, bool) {
	at := func(i int) []int { return append(append([]int{}, path...), i) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, b := byte(0), 0
		switch u.Kind() {
		case types.Int8, types.Int16, types.Int32, types.Int64:
			k = 'i'
		case types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			k = 'u'
		case types.Float32, types.Float64:
			k = 'f'
		}
		if k == 0 {
			return nil, false
		}
		b = map[types.BasicKind]int{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32, types.Float32: 32, types.Int64: 64, types.Uint64: 64, types.Float64: 64}[u.Kind()]
		return []wirePart{{k, b, name, path}}, true
	case *types.Struct:
		var out []wirePart
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			if n == "_" {
				n = ""
			}
			q, ok := wireLayout(u.Field(i).Type(), n, at(i))
			if !ok {
				return nil, false
			}
			out = append(out, q...)
		}
		return out, true
	case *types.Array:
		var out []wirePart
		for i := 0; i < int(u.Len()); i++ {
			q, ok := wireLayout(u.Elem(), "", at(i))
			if !ok {
				return nil, false
			}
			out = append(out, q...)
		}
		return out, true
	}
	return nil, false
}

type wireSpec struct {
	kind byte // i u f, 'x': unused
	bits int
	name string
	n    int // repeated
}

func ints(names ...string) []wireSpec {
	var out []wireSpec
	for _, n := range names {
		out = append(out, wireSpec{'i', 32, n, 1})
	}
	return out
}

func flat(s []wireSpec) []wireSpec {
	var out []wireSpec
	for _, x := range s {
		for i := 0; i < x.n; i++ {
			out = append(out, wireSpec{x.kind, x.bits, x.name, 1})
		}
	}
	return out
}

var (
	wireHeader = append([]wireSpec{{'f', 32, "BaseScore", 1}, {'u', 32, "NumFeatures", 1}, {'i', 32, "NumClass", 1}}, wireSpec{'x', 32, "", 31})
	wireGBTree = append(ints("NumTrees", "NumRoots", "NumFeature"), wireSpec{'x', 32, "", 1}, wireSpec{'x', 64, "", 1}, wireSpec{'i', 32, "NumOutputGroup", 1}, wireSpec{'i', 32, "SizeLeafVector", 1}, wireSpec{'x', 32, "", 32})
	wireTree   = append(ints("NumRoots", "NumNodes", "NumDeleted", "MaxDepth", "NumFeature", "SizeLeafVector"), wireSpec{'x', 32, "", 31})
	wireNode   = append(ints("Parent", "CLeft", "CRight"), wireSpec{'u', 32, "SIndex", 1}, wireSpec{'f', 32, "Info", 1})
	wireStat   = []wireSpec{{'x', 32, "", 4}}
	wireLinear = []wireSpec{{'u', 32, "NumFeature", 1}, {'i', 32, "NumOutputGroup", 1}, {'x', 32, "", 32}}
)

// wireEv: one read.
type wireEv struct {
	x     *Effect
	data  *Term // what is filled: the address of a record
	typ   types.Type
	parts []wirePart
	n     *Term // vector: number of elements
	vec   *Term // vector: the slice
	word  *Term // bytes that are one number: its value
}

func (v *wireEv) in(l *LoopInst) bool { return inLoop(v.x, l) }

type wireRun struct {
	p      *Program
	c      *Ctx
	f      *ssa.Function
	e      *Engine
	rets   []retEdge
	reader *Term
	succ   []wireSucc
	elems  map[*Term]*wireElems
	evs    []*wireEv
	pos    int // next read
	nreads int
}

// wireSucc: a return that reports success.
type wireSucc struct {
	q retEdge
	g *Node
}

// wireElems: a list that is read element by element.
type wireElems struct {
	v     *wireEv
	l     *LoopInst
	n     *Term
	loops []*LoopInst
}

const wireRule = "binary format"

func wireIface(v Val) (*Term, types.Type) {
	t := one(v)
	if t == nil {
		return nil, nil
	}
	if t.op != "iface" {
		return t, t.typ
	}
	io := t.obj.(*ifaceObj)
	return one(io.val), io.typ
}

func (p *Program) wire(c *Ctx, f *ssa.Function) *wireRun {
	w := &wireRun{p: p, c: c, f: f}
	w.e, w.rets = p.runRoot(f, func(*ssa.Function) bool { return false })
	for _, v := range w.e.symParams(f) {
		if w.reader = one(v); w.reader != nil {
			break
		}
	}
	for _, x := range w.e.effects {
		if x.kind != "call" && x.kind != "invoke" {
			continue
		}
		uses := x.addr != nil && baseObj(x.addr) == w.reader
		for _, a := range x.args {
			for _, al := range altsOf(a) {
				if al.t.op == "iface" {
					if io := al.t.obj.(*ifaceObj); one(io.val) == w.reader {
						uses = true
					}
				}
				uses = uses || al.t == w.reader
			}
		}
		if !uses {
			continue
		}
		w.add(x)
	}
	sort.SliceStable(w.evs, func(i, j int) bool { return w.evs[i].x.seq < w.evs[j].x.seq })
	return w
}

func (w *wireRun) add(x *Effect) {
	ev := &wireEv{x: x}
	bad := func(why string) {
		w.c.violate(wireRule, x.in, x.pos, "the input is read in a way that has no place in the format: %s", why)
	}
	switch x.name {
	case "encoding/binary.Read":
		_, ot := wireIface(x.args[1])
		if ot == nil || !strings.HasSuffix(ot.String(), "encoding/binary.littleEndian") {
			bad("numbers are not read in little-endian order")
			return
		}
		d, dt := wireIface(x.args[2])
		if d == nil {
			bad("the data read could not be decided")
			return
		}
		switch u := dt.Underlying().(type) {
		case *types.Pointer:
			if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
				var cur Val
				for i := len(w.e.effects) - 1; i >= 0 && cur == nil; i-- {
					s := w.e.effects[i]
					if s.seq < x.seq && s.kind == "store" && s.addr == d {
						if ok, _ := entails(x.guard, s.guard); ok {
							cur = s.val
						}
					}
				}
				if cur == nil {
					bad("the list filled could not be decided")
					return
				}
				ev.vec, ev.typ = pick(x.guard, cur), sl.Elem()
			} else {
				ev.data, ev.typ = d, u.Elem()
			}
		case *types.Slice:
			ev.vec, ev.typ = d, u.Elem()
		default:
			bad("a " + dt.String())
			return
		}
	case "io.ReadFull":
		d := pick(x.guard, x.args[1])
		if d == nil {
			bad("the data read could not be decided")
			return
		}
		ev.vec, ev.typ = d, types.Typ[types.Byte]
	default:
		bad(shortName(x.name))
		return
	}
	if ev.vec != nil {
		if ev.vec.op == "make" {
			ev.n = ev.vec.args[0]
		} else if ev.vec.op == "slice" && ev.vec.args[1] != nil && isZeroI(ev.vec.args[1]) {
			ev.n = ev.vec.args[2]
		} else {
			ev.n = lenTerm(ev.vec)
		}
	}
	if ev.word = w.wordOf(x, ev); ev.word != nil {
		ev.vec, ev.n, ev.typ = nil, nil, ev.word.typ
	}
	var ok bool
	if ev.parts, ok = wireLayout(ev.typ, "", nil); !ok {
		bad("a " + ev.typ.String() + " has no fixed size")
		return
	}
	w.evs = append(w.evs, ev)
	w.nreads++
}

// wordOf: the number made of the bytes read by x.
func (w *wireRun) wordOf(x *Effect, ev *wireEv) *Term {
	if ev.vec == nil || !types.Identical(ev.typ, types.Typ[types.Byte]) || ev.n == nil {
		return nil
	}
	n, ok := ev.n.intVal()
	if !ok {
		return nil
	}
	for _, y := range w.e.effects {
		v := one(y.res)
		if y.kind != "call" || v == nil || len(y.args) == 0 || one(y.args[len(y.args)-1]) != ev.vec || !strings.Contains(v.aux, "rx"+x.ctx) {
			continue
		}
		if n == 8 && y.name == "(encoding/binary.littleEndian).Uint64" || n == 4 && y.name == "(encoding/binary.littleEndian).Uint32" {
			return v
		}
	}
	return nil
}

// value of the record read by v.
func (w *wireRun) value(v *wireEv, path []int) *Term {
	if v.word != nil {
		return v.word
	}
	t := mkTerm("out", "2@"+v.x.ctx, v.typ)
	val := symVal(t, v.typ)
	for _, i := range path {
		sv, ok := val.(*StructVal)
		if !ok || i >= len(sv.f) {
			return nil
		}
		val = sv.f[i]
	}
	return one(val)
}

// next takes the next read, which must stand in exactly these loops (or one
// more, when a list is read record by record).
func (w *wireRun) next(what string) *wireEv {
	if w.pos >= len(w.evs) {
		w.c.must(false, wireRule, w.f, w.f.Pos(), "%s: nothing is read for %s", fname(w.f), what)
		return nil
	}
	v := w.evs[w.pos]
	w.pos++
	return v
}

// always: v is executed whenever g.
func (w *wireRun) always(v *wireEv, g *Node, what string) {
	ok, cx := entails(g, v.x.guard)
	w.c.must(ok, wireRule, v.x.in, v.x.pos, "%s is not read when %s", what, cut(litsStr(cx), 300))
}

type wireRec struct {
	vals map[string]*Term
	evs  []*wireEv
}

// record reads one record, in one or several steps.
func (w *wireRun) record(spec []wireSpec, loops []*LoopInst, g *Node, what string) *wireRec {
	s := flat(spec)
	r := &wireRec{vals: map[string]*Term{}}
	for i := 0; i < len(s); {
		v := w.next(what)
		if v == nil {
			return nil
		}
		if v.vec != nil || !sameLoops(v.x.loops, loops) {
			w.c.must(false, wireRule, v.x.in, v.x.pos, "the next part of the file is %s, %s", what, wireDesc(v))
			return nil
		}
		if g != nil {
			w.always(v, g, what)
		}
		r.evs = append(r.evs, v)
		for _, q := range v.parts {
			if i >= len(s) {
				w.c.must(false, wireRule, v.x.in, v.x.pos, "%s is longer in the program than in the file", what)
				return nil
			}
			if !w.part(v, q, s[i], what, i) {
				return nil
			}
			if s[i].name != "" {
				r.vals[s[i].name] = w.value(v, q.path)
			}
			i++
		}
	}
	return r
}

func wireDesc(v *wireEv) string {
	if v.vec != nil {
		return fmt.Sprintf("but a list of %s is read", v.typ)
	}
	return fmt.Sprintf("but a %s is read in another loop or under other conditions", v.typ)
}

func (w *wireRun) part(v *wireEv, q wirePart, s wireSpec, what string, i int) bool {
	ok := q.bits == s.bits
	if s.kind == 'f' || q.kind == 'f' {
		ok = ok && (q.kind == s.kind || s.kind == 'x')
	} else if s.kind != 'x' {
		ok = ok && q.kind == s.kind
	}
	n := s.name
	if n == "" {
		n = fmt.Sprintf("number %d", i)
	}
	return w.c.must(ok, wireRule, v.x.in, v.x.pos, "%s of %s is %s%d in the file and %s%d in the program (%s)", n, what, kindName(s.kind), s.bits, kindName(q.kind), q.bits, v.typ)
}

func kindName(k byte) string {
	switch k {
	case 'i':
		return "int"
	case 'u':
		return "uint"
	case 'f':
		return "float"
	}
	return "data"
}

// vector reads n elements of kind, if there are any: a 64-bit length first
// when n is nil.
func (w *wireRun) vector(spec wireSpec, n *Term, loops []*LoopInst, g *Node, what string) (vec, num *Term) {
	if n == nil {
		r := w.record([]wireSpec{{'u', 64, "n", 1}}, loops, g, "the length of "+what)
		if r == nil {
			return nil, nil
		}
		n = r.vals["n"]
	}
	v := w.next(what)
	if v == nil {
		return nil, nil
	}
	if v.vec == nil && len(v.parts) == 1 && len(v.x.loops) == len(loops)+1 && sameLoops(v.x.loops[:len(loops)], loops) {
		// element by element
		in := v.x.loops[len(loops)]
		ok, why := w.e.doneAt(in, sc(n), w.e.lens(g), w.e.lens(in.back))
		w.c.must(ok, wireRule, v.x.in, v.x.pos, "%s: the loop does not run %v times: %s", what, n, why)
		w.always(v, in.back, what)
		if !w.part(v, v.parts[0], spec, what, 0) {
			return nil, nil
		}
		vec = w.value(v, v.parts[0].path)
		if w.elems == nil {
			w.elems = map[*Term]*wireElems{}
		}
		w.elems[vec] = &wireElems{v, in, n, v.x.loops}
		return vec, n
	}
	if v.vec == nil || !sameLoops(v.x.loops, loops) || len(v.parts) != 1 {
		w.c.must(false, wireRule, v.x.in, v.x.pos, "the next part of the file is %s, but a %s is read", what, v.typ)
		return nil, nil
	}
	if !w.part(v, v.parts[0], spec, what, 0) {
		return nil, nil
	}
	w.c.must(v.n == n, wireRule, v.x.in, v.x.pos, "%s: %v are read, %v are in the file", what, v.n, n)
	w.always(v, and(g, not(le0(polyOf(n)))), what)
	return v.vec, n
}

// list reads n records, in a loop or at once.
func (w *wireRun) list(spec []wireSpec, n *Term, loops []*LoopInst, g *Node, what string) (vec *Term, in *LoopInst, r *wireRec) {
	if w.pos >= len(w.evs) {
		w.next(what)
		return
	}
	v := w.evs[w.pos]
	if v.vec != nil {
		w.pos++
		s := flat(spec)
		ok := sameLoops(v.x.loops, loops) && len(s) == len(v.parts)
		w.c.must(ok, wireRule, v.x.in, v.x.pos, "the next part of the file is %s, but a list of %s is read", what, v.typ)
		if !ok {
			return
		}
		for i := range s {
			if !w.part(v, v.parts[i], s[i], what, i) {
				return
			}
			if s[i].name != "" && v.parts[i].name != s[i].name {
				w.c.must(false, wireRule, v.x.in, v.x.pos, "number %d of %s is %s, not %s", i, what, s[i].name, v.parts[i].name)
			}
		}
		w.c.must(v.n == n, wireRule, v.x.in, v.x.pos, "%s: %v are read, %v are in the file", what, v.n, n)
		w.always(v, and(g, not(le0(polyOf(n)))), what)
		return v.vec, nil, nil
	}
	if len(v.x.loops) != len(loops)+1 || !sameLoops(v.x.loops[:len(loops)], loops) {
		w.c.must(false, wireRule, v.x.in, v.x.pos, "the next part of the file is %s, but a %s is read outside a loop over it", what, v.typ)
		return
	}
	in = v.x.loops[len(loops)]
	ok, why := w.e.doneAt(in, sc(n), w.e.lens(g), w.e.lens(in.back))
	w.c.must(ok, wireRule, v.x.in, v.x.pos, "%s: the loop does not run %v times: %s", what, n, why)
	r = w.record(spec, v.x.loops, in.back, what)
	return nil, in, r
}

// lastWrite: the last assignment of a place, by the address of the place or of
// something that contains it.
func (w *wireRun) lastWrite(addr *Term) (x *Effect, ev *wireEv, path []string) {
	var names []string
	for a := addr; a != nil; {
		for _, y := range w.e.effects {
			if y.kind == "store" && y.addr == a && (x == nil || y.seq >= x.seq) && (ev == nil || y.seq >= ev.x.seq) {
				x, ev, path = y, nil, append([]string{}, names...)
			}
		}
		for _, y := range w.evs {
			if y.data == a && (x == nil || y.x.seq >= x.seq) && (ev == nil || y.x.seq >= ev.x.seq) {
				x, ev, path = nil, y, append([]string{}, names...)
			}
		}
		if a.op != "field" {
			break
		}
		names = append([]string{a.aux}, names...)
		a = a.args[0]
	}
	return
}

// finalVal: the value of the field at the end of an iteration (g).
func (w *wireRun) finalVal(addr *Term, g *Node, in *LoopInst) (*Term, string) {
	x, ev, path := w.lastWrite(addr)
	if x == nil && ev == nil {
		return nil, "it is never set"
	}
	var v Val
	var gd *Node
	if x != nil {
		v, gd = x.val, x.guard
	} else {
		v, gd = symVal(mkTerm("out", "2@"+ev.x.ctx, ev.typ), ev.typ), ev.x.guard
	}
	if in != nil && x != nil && inLoop(x, in) {
		g = in.back
	}
	if ok, cx := entails(g, gd); !ok {
		return nil, "it is not set when " + cut(litsStr(cx), 200)
	}
	for _, n := range path {
		sv, ok := v.(*StructVal)
		if !ok {
			return nil, "its value could not be decided"
		}
		i := fieldIndex(sv.typ, n)
		if i < 0 {
			return nil, "its value could not be decided"
		}
		v = sv.f[i]
	}
	t := pick(g, v)
	if t == nil {
		return nil, "it has different values"
	}
	return t, ""
}

func fieldIndex(t types.Type, n string) int {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return i
			}
		}
	}
	return -1
}

func fieldOf(t types.Type, n string) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if i := fieldIndex(t, n); i >= 0 {
		return structOf(t).Field(i)
	}
	return nil
}

// result: the object returned and the guard of success.
func (w *wireRun) result() (obj *Term, g *Node) {
	g = bd.F
	for _, r := range w.rets {
		h := and(r.g, errIsNil(lastVal(r.val)))
		if unsat(h) {
			continue
		}
		o := pick(h, r.val.(*TupleVal).v[0])
		if o == nil || obj != nil && o != obj {
			panic(undecided("the result of " + fname(w.f)))
		}
		obj, g = o, or(g, h)
		w.succ = append(w.succ, wireSucc{r, h})
	}
	if obj == nil {
		panic(undecided("the result of " + fname(w.f)))
	}
	return
}

// load: what a place of the result holds.
func (w *wireRun) load(addr *Term, typ types.Type) Val {
	var gs []*Node
	var vs []Val
	for _, s := range w.succ {
		gs = append(gs, s.g)
		vs = append(vs, w.e.loadVal(s.q.st, addr, typ))
	}
	return mergeVals(gs, vs)
}

func (w *wireRun) finished() {
	if w.pos < len(w.evs) {
		v := w.evs[w.pos]
		w.c.must(false, wireRule, v.x.in, v.x.pos, "a %s is read which is not in the file", v.typ)
	}
	w.c.must(w.nreads > 0, wireRule, w.f, w.f.Pos(), "%s reads nothing", fname(w.f))
}

// fields: the named numbers of a record of the result.
func (w *wireRun) fields(obj *Term, rec string, g *Node, r *wireRec, spec []wireSpec) {
	if r == nil {
		return
	}
	f := fieldOf(w.f.Signature.Results().At(0).Type(), rec)
	if f == nil {
		panic(undecided("the field " + rec + " of the result of " + fname(w.f)))
	}
	a := fieldAddr(obj, f.Name(), f.Type())
	for _, s := range spec {
		if s.name == "" {
			continue
		}
		h := fieldOf(f.Type(), s.name)
		if h == nil {
			panic(undecided("the field " + s.name + " of " + f.Type().String()))
		}
		v := pick(g, w.load(fieldAddr(a, h.Name(), h.Type()), h.Type()))
		w.c.must(v == r.vals[s.name], wireRule, w.f, w.f.Pos(), "%s.%s of the result is %v, not the number at its place in the file", rec, s.name, v)
	}
}

// text: a string of the result.
func (w *wireRun) text(obj *Term, name string, g *Node, vec, n *Term) {
	if vec == nil {
		return
	}
	f := fieldOf(w.f.Signature.Results().At(0).Type(), name)
	if f == nil {
		panic(undecided("the field " + name + " of the result of " + fname(w.f)))
	}
	v := w.load(fieldAddr(obj, f.Name(), f.Type()), f.Type())
	t := pick(and(g, not(le0(polyOf(n)))), v)
	ok := t != nil && isTextOf(t, vec)
	w.c.must(ok, wireRule, w.f, w.f.Pos(), "%s of the result is %v, not the text at its place in the file", name, t)
	t = pick(and(g, le0(polyOf(n))), v)
	ok = t != nil && (isTextOf(t, vec) || t == strTerm(""))
	w.c.must(ok, wireRule, w.f, w.f.Pos(), "%s of the result is %v when the text is empty", name, t)
}

func isTextOf(t, vec *Term) bool {
	return strings.HasPrefix(t.op, "conv") && types.Identical(t.typ.Underlying(), types.Typ[types.String]) && t.args[0] == vec
}

func (w *wireRun) slice(obj *Term, name string, g *Node, vec, n *Term) {
	if vec == nil {
		return
	}
	f := fieldOf(w.f.Signature.Results().At(0).Type(), name)
	if f == nil {
		panic(undecided("the field " + name + " of the result of " + fname(w.f)))
	}
	v := w.load(fieldAddr(obj, f.Name(), f.Type()), f.Type())
	t := pick(and(g, not(le0(polyOf(n)))), v)
	if el := w.elems[vec]; el != nil && t != nil {
		if q := w.onePart(t, el.l, el.n, el.loops, "the elements of "+name); q != nil {
			x := q.el1(el.l.back)
			w.c.must(x == vec || x != nil && el.v.data != nil && x.op == "load" && x.args[0] == el.v.data, wireRule, q.x.in, q.x.pos, "an element of %s is %v, not the number at its place in the file", name, x)
		}
		return
	}
	w.c.must(t == vec, wireRule, w.f, w.f.Pos(), "%s of the result is %v, not the list at its place in the file", name, t)
	w.kept(vec)
}

// kept: no element of a list that was read is overwritten.
func (w *wireRun) kept(vec *Term) {
	for _, x := range w.e.effects {
		if (x.kind == "store" || x.kind == "copy") && x.addr != nil && rootOf(x.addr) == vec {
			w.c.must(false, wireRule, x.in, x.pos, "an element of a list read from the file is overwritten")
		}
	}
}

func ruleWire(p *Program, c *Ctx) {
	const rel = "internal/xgbin"
	read := func(name string, run func(w *wireRun, obj *Term, g *Node)) {
		f := p.fn(rel, name)
		c.guarded(wireRule, f, func() {
			w := p.wire(c, f)
			c.analysed(f)
			obj, g := w.result()
			run(w, obj, g)
			w.finished()
		})
	}
	read("ReadModelHeader", func(w *wireRun, obj *Term, g *Node) {
		r := w.record(wireHeader, nil, g, "the learner parameters")
		w.fields(obj, "Param", g, r, wireHeader)
		v, n := w.vector(wireSpec{'u', 8, "", 1}, nil, nil, g, "the name of the objective")
		w.text(obj, "NameObj", g, v, n)
		v, n = w.vector(wireSpec{'u', 8, "", 1}, nil, nil, g, "the name of the booster")
		w.text(obj, "NameGbm", g, v, n)
	})
	read("ReadGBLinearModel", func(w *wireRun, obj *Term, g *Node) {
		r := w.record(wireLinear, nil, g, "the linear parameters")
		w.fields(obj, "Param", g, r, wireLinear)
		v, n := w.vector(wireSpec{'f', 32, "", 1}, nil, nil, g, "the weights")
		w.slice(obj, "Weights", g, v, n)
	})
	read("ReadGBTreeModel", func(w *wireRun, obj *Term, g *Node) {
		r := w.record(wireGBTree, nil, g, "the gbtree parameters")
		w.fields(obj, "Param", g, r, wireGBTree)
		if r == nil {
			return
		}
		w.trees(obj, g, r.vals["NumTrees"])
	})
}

func (w *wireRun) trees(obj *Term, g *Node, num *Term) {
	c := w.c
	if w.pos >= len(w.evs) || len(w.evs[w.pos].x.loops) == 0 {
		c.must(false, wireRule, w.f, w.f.Pos(), "the trees are not read in a loop")
		w.pos = len(w.evs)
		return
	}
	first := w.evs[w.pos]
	l := first.x.loops[0]
	loops := first.x.loops[:1]
	ok, why := w.e.doneAt(l, sc(num), w.e.lens(g), w.e.lens(l.back))
	c.must(ok, wireRule, first.x.in, first.x.pos, "the loop over the trees does not run once per tree: %s", why)
	rt := w.record(wireTree, loops, l.back, "the tree parameters")
	if rt == nil {
		w.pos = len(w.evs)
		return
	}
	nodes := rt.vals["NumNodes"]
	nvec, nl, rn := w.list(wireNode, nodes, loops, l.back, "the nodes")
	if nvec == nil && rn == nil {
		w.pos = len(w.evs)
		return
	}
	svec, _, rs := w.list(wireStat, nodes, loops, l.back, "the node statistics")
	if svec == nil && rs == nil {
		w.pos = len(w.evs)
		return
	}
	// the leaf vector
	size := rt.vals["SizeLeafVector"]
	has := not(le0(polyOf(size)))
	if w.pos < len(w.evs) && w.evs[w.pos].in(l) {
		v := w.evs[w.pos]
		w.vector(wireSpec{'f', 32, "", 1}, nil, loops, and(l.back, has), "the leaf vector")
		ok, cx := entails(and(v.x.guard, l.back), has)
		c.must(ok, wireRule, v.x.in, v.x.pos, "a leaf vector is read when %s", cut(litsStr(cx), 300))
	} else {
		c.must(false, wireRule, w.f, w.f.Pos(), "nothing is read for the leaf vector of a tree")
	}
	v, _ := w.vector(wireSpec{'i', 32, "", 1}, num, nil, g, "the groups of the trees")
	w.slice(obj, "TreeInfo", g, v, num)

	// where the trees go
	tf := fieldOf(w.f.Signature.Results().At(0).Type(), "Trees")
	if tf == nil {
		panic(undecided("the field Trees of the result of " + fname(w.f)))
	}
	G := and(g, not(le0(polyOf(num))))
	L := pick(G, w.load(fieldAddr(obj, tf.Name(), tf.Type()), tf.Type()))
	if L == nil {
		panic(undecided("the trees of the result of " + fname(w.f)))
	}
	part := w.onePart(L, l, num, loops, "the trees")
	if part == nil {
		return
	}
	el := part.el1(l.back)
	if el == nil || el.op != "alloc" {
		c.must(false, wireRule, part.x.in, part.x.pos, "the tree added to the list could not be decided (%v)", el)
		return
	}
	if !c.must(w.e.variant(l, el), wireRule, part.x.in, part.x.pos, "the same tree is added to the list in every round") {
		return
	}
	tt := tf.Type().Underlying().(*types.Slice).Elem()
	elf := func(name string) *Term {
		f := fieldOf(tt, name)
		if f == nil {
			panic(undecided("the field " + name + " of " + tt.String()))
		}
		return fieldAddr(el, f.Name(), f.Type())
	}
	pf := fieldOf(tt, "Param")
	if pf == nil {
		panic(undecided("the field Param of " + tt.String()))
	}
	for _, s := range wireTree {
		if s.name == "" || s.name == "NumRoots" || s.name == "MaxDepth" || s.name == "NumFeature" || s.name == "NumDeleted" || s.name == "SizeLeafVector" {
			continue
		}
		h := fieldOf(pf.Type(), s.name)
		if h == nil {
			panic(undecided("the field " + s.name + " of " + pf.Type().String()))
		}
		v, why := w.finalVal(fieldAddr(elf("Param"), h.Name(), h.Type()), l.back, nil)
		c.must(v == rt.vals[s.name], wireRule, part.x.in, part.x.pos, "Param.%s of a tree is not the number at its place in the file: %s", s.name, why)
	}
	nv, why := w.finalVal(elf("Nodes"), l.back, nl)
	if nvec != nil {
		c.must(nv == nvec, wireRule, part.x.in, part.x.pos, "the nodes of a tree are not the list read from the file: %s", why)
		w.kept(nvec)
		return
	}
	if nv == nil {
		c.must(false, wireRule, part.x.in, part.x.pos, "the nodes of a tree could not be decided: %s", why)
		return
	}
	// read in place: &nodes[i]
	if len(rn.evs) == 1 && rn.evs[0].data.op == "index" {
		d := rn.evs[0].data
		c.must(d.args[0] == nv && nv.op == "make" && nv.args[0] == nodes && d.args[1] == nl.iv, wireRule, part.x.in, rn.evs[0].x.pos, "node %v of %v is read in iteration %v", d.args[1], d.args[0], nl.iv)
		return
	}
	np := w.onePart(nv, nl, nodes, append(append([]*LoopInst{}, loops...), nl), "the nodes")
	if np == nil {
		return
	}
	for _, s := range wireNode {
		v := np.elField(nl.back, s.name)
		c.must(v != nil && v == rn.vals[s.name], wireRule, np.x.in, np.x.pos, "%s of a node is %v, not the number at its place in the file", s.name, v)
	}
}

// onePart: a list that gets one element in every iteration.
func (w *wireRun) onePart(L *Term, l *LoopInst, num *Term, loops []*LoopInst, what string) *lpart {
	parts, sz, why := w.e.buildOf(L)
	if why != "" {
		panic(undecided(what + ": " + why))
	}
	var out []*lpart
	for _, q := range parts {
		dup := false
		for _, o := range out {
			dup = dup || o.x == q.x
		}
		if !dup {
			out = append(out, q)
		}
	}
	pos := w.f.Pos()
	if len(out) > 0 {
		pos = out[0].x.pos
	}
	ok := len(out) == 1 && sameLoops(out[0].x.loops, loops) && out[0].all == nil && (out[0].idx != nil || len(out[0].el) == 1)
	if !w.c.must(ok, wireRule, w.f, pos, "%s are not collected one by one", what) {
		return nil
	}
	q := out[0]
	if q.idx != nil {
		w.c.must(q.idx == l.iv && sz == num, wireRule, q.x.in, q.x.pos, "%s: element %v of %v is set in iteration %v", what, q.idx, sz, l.iv)
	} else {
		w.c.must(sz == nil, wireRule, q.x.in, q.x.pos, "%s are added after %v empty ones", what, sz)
	}
	ok, cx := entails(l.back, q.x.guard)
	w.c.must(ok, wireRule, q.x.in, q.x.pos, "%s: one is left out when %s", what, cut(litsStr(cx), 300))
	return q
}

// el1: the element added, at g.
func (q *lpart) el1(g *Node) *Term {
	if q.idx != nil {
		return pick(g, q.val)
	}
	if q.x != nil && len(q.x.args) > 1 {
		if t := pick(g, q.x.args[1]); t != nil && t.op == "alloc" {
			return t
		}
	}
	return resolver(g).term(q.el[0])
}

func (q *lpart) elField(g *Node, name string) *Term {
	v := q.val
	if q.idx == nil {
		if len(q.x.args) < 2 {
			return nil
		}
		v = q.x.args[1]
	}
	sv, ok := v.(*StructVal)
	if !ok {
		return nil
	}
	i := fieldIndex(sv.typ, name)
	if i < 0 {
		panic(undecided("the field " + name + " of " + sv.typ.String()))
	}
	return pick(g, sv.f[i])
}

// ruleWireOrder: the loaders read header, model and weights of dropped trees
// in this order and nothing else.
func ruleWireOrder(p *Program, c *Ctx) {
	n := 0
	for _, f := range p.modelLoaders() {
		f := f
		c.guarded("order of the parts", f, func() {
			r := p.loaderRun(f)
			if r.kind != "gbtree" && r.kind != "gblinear" {
				return
			}
			n++
			c.analysed(f)
			ok, _ := r.split()
			const rule = "order of the parts"
			h, m := r.srcs["H"], r.srcs["M"]
			if r.kind == "gblinear" {
				m = r.srcs["L"]
			}
			if !c.must(h != nil && m != nil, rule, f, f.Pos(), "%s does not read the header and the model", fname(f)) {
				return
			}
			rd := one(h.args[0])
			if rd == nil {
				panic(undecided("the reader of " + fname(f)))
			}
			c.must(h.seq < m.seq, rule, f, m.pos, "the model is read before the header")
			c.must(one(m.args[0]) == rd, rule, f, m.pos, "header and model are read from different inputs")
			mine := map[*Effect]bool{h: true, m: true}
			ws := ""
			if r.kind == "gblinear" {
				ws = "L.Weights"
			}
			for _, q := range ok {
				r.scalars(c, q, ws)
			}
			for _, q := range ok {
				c.imply(q.g, and(r.node(h.guard), r.node(m.guard)), rule, f, m.pos, "header or model is not read")
			}
			if r.kind == "gbtree" {
				w := r.srcs["W"]
				if c.must(w != nil, rule, f, f.Pos(), "%s never reads the weights of dropped trees", fname(f)) {
					mine[w] = true
					c.must(m.seq < w.seq, rule, f, w.pos, "the weights of dropped trees are read before the model")
					c.must(one(w.args[0]) == rd, rule, f, w.pos, "the weights of dropped trees are read from another input")
					dart := eqStr(sc(r.s("H.NameGbm")), "dart")
					for _, q := range ok {
						c.imply(and(q.g, dart), r.node(w.guard), rule, f, w.pos, "the weights of dropped trees of a dart model are not read")
						c.imply(and(q.g, r.node(w.guard)), dart, rule, f, w.pos, "weights of dropped trees are read from other models")
					}
				}
			}
			for _, x := range r.e.effects {
				if x.kind != "call" && x.kind != "invoke" || mine[x] {
					continue
				}
				uses := x.addr != nil && baseObj(x.addr) == rd && x.kind == "invoke"
				for _, a := range x.args {
					for _, al := range altsOf(a) {
						if al.t.op == "iface" {
							if io := al.t.obj.(*ifaceObj); one(io.val) == rd {
								uses = true
							}
						}
						uses = uses || al.t == rd
					}
				}
				c.must(!uses, rule, x.in, x.pos, "%s also takes data from the input", shortName(x.name))
			}
		})
	}
	c.must(n >= 4, "order of the parts", nil, 0, "only %d loaders of XGBoost files found", n)
}

// ruleNodesOf: the nodes of converted trees of one format.
func ruleNodesOf(p *Program, c *Ctx, kind string) {
	n := 0
	for _, f := range p.converters() {
		f := f
		c.guarded("split", f, func() {
			r := p.nodeRun(f, nil)
			if r.kind != kind {
				return
			}
			n++
			c.analysed(f)
			r.collect(c)
			c.must(len(r.adds) > 0, "split", f, f.Pos(), "no nodes are added")
			for _, a := range r.adds {
				a := a
				c.guarded("split", f, func() { r.fidelity(c, a) })
			}
		})
	}
	c.must(n == 1, "split", nil, 0, "%d converters of %s trees found", n, kind)
}

func init() {
	reg("C18", func(p *Program, c *Ctx) {
		ruleWire(p, c)
		ruleWireOrder(p, c)
		ruleNodesOf(p, c, "gbtree")
	}, symText+"Rule: the reads of the input by the readers of the header, of tree models and of linear models are listed in the order of execution, with the layout encoding/binary gives to the type that is filled (go/types), and matched one by one with the layout of the format: byte order, kind and width of every number, number of elements of every list (trip counts of loops), condition of every optional part; the numbers the rest of the program uses are traced to the fields of the result that must hold them. The loaders read header, model and, exactly for dart, weights, from one input and nothing in between.", asmInts, "encoding/binary.Read and io.ReadFull follow their documentation")
}

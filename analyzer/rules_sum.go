package main

// Rules about the values written for a row: additive scores (C07), number of
// trees used (C06), leaf indices (C08).

import (
	"fmt"
	"go/token"
	"go/types"
)

// piece: one summand of what a row's cell receives.
type piece struct {
	x     *Effect
	cell  *Term // position relative to the row's first cell
	guard *Node
	loops []*LoopInst // loops below the row's, in which the summand repeats
	acc   bool        // added to the previous content (false: initial value)
	t     *Term
	phi   bool
}

type sumForm struct {
	r      *ERun
	g      *Row
	base   *Term // buffer
	lo     *Term // first cell of the row in it
	size   *Term
	pieces []*piece
	scales []*piece // the whole content multiplied by t
	tcall  *Effect
	fresh  bool
}

// buffers: where the raw scores of a row are accumulated.
func (g *Row) sumForm() (*sumForm, string) {
	r := g.run
	f := &sumForm{r: r, g: g}
	if len(g.tcalls) > 0 {
		for _, x := range g.tcalls {
			if len(x.args) != 4 {
				return nil, "unexpected arguments of Transform"
			}
			t := one(x.args[1])
			if t == nil {
				return nil, "the raw scores handed to Transform have several values"
			}
			b, lo, hi := sliceBase(t)
			if f.base != nil && (f.base != b || f.lo != lo) {
				return nil, "several buffers of raw scores"
			}
			f.base, f.lo, f.size = b, lo, sub(hi, lo)
			f.tcall = x
		}
		f.fresh = isFreshRoot(rootOf(f.base))
		return f, ""
	}
	f.base, f.lo, f.size = r.result, mul(g.r, r.O), r.O
	if r.entry == "PredictSingle" {
		f.lo, f.size = intTerm(0), r.G
	}
	return f, ""
}

func (f *sumForm) collect() string {
	r := f.r
	for _, x := range f.g.stores {
		base, off := x.addr.args[0], x.addr.args[1]
		b, lo, _ := sliceBase(base)
		if b != f.base {
			continue
		}
		if lo != nil {
			off = add(off, lo)
		}
		cell := sub(off, f.lo)
		for _, a := range altsOf(x.val) {
			gd := and(and(x.guard, a.g), r.assume)
			if unsat(gd) {
				continue
			}
			if k := f.scaled(a.t, x.addr, loopsAfter(x, f.g.loop)); k != nil {
				f.scales = append(f.scales, &piece{x: x, cell: cell, guard: gd, loops: loopsAfter(x, f.g.loop), t: k})
				continue
			}
			if w := f.flatten(x, cell, gd, loopsAfter(x, f.g.loop), a.t, x.addr, nil, 0); w != "" {
				return w
			}
		}
	}
	return ""
}

// scaled: t is the previous content times a factor.
func (f *sumForm) scaled(t, addr *Term, loops []*LoopInst) *Term {
	if t.op != "fmul" && t.op != "fdiv" {
		return nil
	}
	num, _ := product(t)
	n := 0
	var prev *Term
	for _, x := range num {
		if f.isPrev(x, addr, loops) {
			n++
			prev = x
		}
	}
	if n != 1 {
		return nil
	}
	return substTerm(t, map[*Term]*Term{prev: floatTerm(1)})
}

// flatten splits a stored value into summands. self is the phi whose own
// previous value stands for the content so far.
func (f *sumForm) flatten(x *Effect, cell *Term, gd *Node, loops []*LoopInst, t, addr, self *Term, depth int) string {
	if depth > 12 {
		return "sum nested too deeply"
	}
	var leaves []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == "fadd" && len(t.args) == 2 {
			rec(t.args[0])
			rec(t.args[1])
			return
		}
		leaves = append(leaves, t)
	}
	rec(t)
	prev := 0
	var adds []*Term
	var phis []*Term
	for _, l := range leaves {
		switch {
		case l == self:
			prev++
		case self == nil && f.isPrev(l, addr, loops):
			prev++
		case f.r.phiOf(l) != nil:
			phis = append(phis, l)
		case l.op == "load" && f.r.sameRegion(l.args[0], addr):
			return fmt.Sprintf("a score is computed from another or an outdated score: %v", l)
		default:
			adds = append(adds, l)
		}
	}
	if prev > 1 || len(phis) > 1 || (prev == 1 && len(phis) == 1) {
		return "a score is counted more than once"
	}
	if self != nil && prev == 0 && len(phis) == 0 {
		return "the sum so far is dropped inside a loop"
	}
	for _, a := range adds {
		if v, ok := a.floatVal(); ok && v == 0 && len(leaves) > 1 {
			continue
		}
		f.pieces = append(f.pieces, &piece{x: x, cell: cell, guard: gd, loops: loops, acc: prev == 1 || self != nil || len(phis) > 0, t: a, phi: self != nil || len(phis) > 0})
	}
	for _, ph := range phis {
		pi := f.r.phiOf(ph)
		L := pi.loop
		for _, a := range altsOf(pi.info.init) {
			g2 := and(gd, a.g)
			if unsat(g2) {
				continue
			}
			if a.t == self {
				continue
			}
			if self != nil {
				return "the sum so far is dropped inside a loop"
			}
			n := len(f.pieces)
			if w := f.flatten(x, cell, g2, loops, a.t, addr, nil, depth+1); w != "" {
				return w
			}
			for _, p := range f.pieces[n:] {
				p.phi = true
			}
		}
		inner := append(append([]*LoopInst{}, loops...), L)
		for _, a := range altsOf(pi.info.next) {
			g2 := and(and(L.back, a.g), f.r.assume)
			if unsat(g2) || a.t == ph {
				continue
			}
			if w := f.flatten(x, cell, g2, inner, a.t, addr, ph, depth+1); w != "" {
				return w
			}
		}
	}
	return ""
}

func (f *sumForm) isPrev(l, addr *Term, loops []*LoopInst) bool {
	if l.op == "load" && l.args[0] == addr {
		// the version must be the current one: changed by the innermost loop
		// that contains the store
		if len(loops) == 0 {
			return true
		}
		in := loops[len(loops)-1]
		return in != nil && hasTag(l.aux, in.id)
	}
	if pi := f.r.phiOf(l); pi != nil && pi.info.addr == addr {
		for i := len(loops) - 1; i >= 0; i-- {
			if loops[i] == pi.loop {
				return i == len(loops)-1
			}
		}
	}
	return false
}

func hasTag(aux, id string) bool {
	return len(aux) >= len(id)+1 && aux[len(aux)-len(id)-1:] == "L"+id
}

func (r *ERun) sameRegion(a, b *Term) bool {
	return pattern(a) == pattern(b)
}

type phiLoc struct {
	loop *LoopInst
	info *PhiInfo
}

func (r *ERun) phiOf(t *Term) *phiLoc {
	for _, l := range r.e.loopByID {
		for _, p := range append(append([]*PhiInfo{}, l.phis...), l.mem...) {
			if p.sym == t {
				return &phiLoc{l, p}
			}
		}
	}
	return nil
}

// treeRes: tree evaluations a value is made of: call -> result numbers.
func (r *ERun) treeRes(p *Program, g *Row, t *Term) (calls []*Effect, idx []int) {
	for _, x := range r.effs {
		if x.kind != "call" || x.fn == nil || !p.treeFn(x.fn) {
			continue
		}
		var comps []Val
		if tv, ok := x.res.(*TupleVal); ok {
			comps = tv.v
		} else {
			comps = []Val{x.res}
		}
		for i, c := range comps {
			ct := one(c)
			if ct == nil {
				continue
			}
			if ct == t || findSub(t, func(y *Term) bool { return y == ct }) != nil {
				dup := false
				for j, o := range calls {
					if idx[j] == i && o.in == x.in && o.pos == x.pos {
						dup = true
					}
					if idx[j] == i && one(comps[i]) == resTerm(o, i) {
						dup = true
					}
				}
				if !dup {
					calls = append(calls, x)
					idx = append(idx, i)
				}
			}
		}
	}
	return
}

func resTerm(x *Effect, i int) *Term {
	if tv, ok := x.res.(*TupleVal); ok {
		return one(tv.v[i])
	}
	return one(x.res)
}

// treeNo: position of the evaluated tree in the model's list of trees.
func (r *ERun) treeNo(p *Program, x *Effect) (*Term, string) {
	lt := p.typ("", "lgTree")
	for i, q := range x.fn.Params {
		t := q.Type()
		byVal := true
		if pt, ok := t.(*types.Pointer); ok {
			t, byVal = pt.Elem(), false
		}
		if !types.Identical(t, lt) {
			continue
		}
		var a *Term
		if byVal {
			sv, ok := x.args[i].(*StructVal)
			if !ok || len(sv.f) == 0 {
				return nil, "the evaluated tree is not an element of the model"
			}
			ft := one(sv.f[0])
			if ft == nil || ft.op != "load" || ft.args[0].op != "field" {
				return nil, "the evaluated tree is not an element of the model"
			}
			a = ft.args[0].args[0]
		} else {
			a = one(x.args[i])
		}
		if a != nil && isFreshRoot(a) && i < len(x.deref) {
			// a copy of the tree
			if sv, ok := x.deref[i].(*StructVal); ok && len(sv.f) > 0 {
				var src *Term
				st := structOf(sv.typ)
				for j, fv := range sv.f {
					ft := one(fv)
					if ft == nil || ft.op != "load" || ft.args[0].op != "field" || ft.args[0].aux != st.Field(j).Name() || (src != nil && src != ft.args[0].args[0]) {
						return nil, "the evaluated tree is not a plain copy of an element of the model"
					}
					src = ft.args[0].args[0]
				}
				a = src
			}
		}
		if a != nil && a.op == "load" && a.args[0].op == "index" {
			a = a.args[0] // a list of pointers
		}
		if a == nil || a.op != "index" {
			return nil, fmt.Sprintf("the evaluated tree %v is not an element of the model", a)
		}
		b, lo, _ := sliceBase(a.args[0])
		if b.op != "load" || rootOf(b.args[0]) != r.w.inner {
			return nil, fmt.Sprintf("the evaluated tree is taken from %v", b)
		}
		idx := a.args[1]
		if lo != nil {
			idx = add(idx, lo)
		}
		return idx, ""
	}
	return nil, "no tree argument"
}

// modelField: t is a field of the model of the given kind.
func (r *ERun) modelField(t *Term, ok func(types.Type) bool) bool {
	return t != nil && t.op == "load" && t.args[0].op == "field" && t.args[0].args[0] == r.w.inner && ok(t.args[0].typ.(*types.Pointer).Elem())
}

func (r *ERun) modelHas(ok func(types.Type) bool) bool {
	for _, f := range fieldsOf(r.w.modelT) {
		if ok(f.Type()) {
			return true
		}
	}
	return false
}

func isF64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float64
}

func sliceOf(t types.Type, k types.BasicKind) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// chains: pieces that repeat in the same loops.
type chain struct {
	loops []*LoopInst
	ps    []*piece
	guard *Node
}

func chainsOf(ps []*piece) []*chain {
	var out []*chain
	for _, p := range ps {
		var c *chain
		for _, o := range out {
			if len(o.loops) == len(p.loops) {
				same := true
				for i := range o.loops {
					if o.loops[i] != p.loops[i] {
						same = false
					}
				}
				if same && o.ps[0].x.in == p.x.in {
					c = o
				}
			}
		}
		if c == nil {
			c = &chain{loops: p.loops, guard: bd.F}
			out = append(out, c)
		}
		c.ps = append(c.ps, p)
		c.guard = or(c.guard, p.guard)
	}
	return out
}

func (ch *chain) entry() *Node {
	if len(ch.loops) > 0 {
		return ch.loops[0].entry
	}
	return ch.guard
}

// covered: one of the chains runs, completely, whenever the row is processed.
func (f *sumForm) covered(chs []*chain) (bool, string) {
	return f.coveredIf(chs, bd.T)
}

// coveredIf: the same exactly under the condition.
func (f *sumForm) coveredIf(chs []*chain, cond *Node) (bool, string) {
	e := f.r.e
	all := bd.F
	for _, ch := range chs {
		if len(ch.loops) > 0 {
			if ok, w := e.mustReach(ch.guard, ch.loops, ch.loops[0]); !ok {
				return false, w
			}
		}
		all = or(all, ch.entry())
	}
	for i, a := range chs {
		for _, b := range chs[i+1:] {
			if !unsat(and(and(e.strip(f.g, a.entry()), e.strip(f.g, b.entry())), f.r.assume)) {
				return false, "the same summand is added in two places"
			}
		}
	}
	var reach *Node
	if f.g.loop != nil {
		reach = e.dropNested(f.g.loop, f.g.loop.back)
		all = e.dropNested(f.g.loop, all)
	} else {
		reach = e.preLoop(f.reached())
		all = e.preLoop(all)
	}
	if ok, cx := entails(and(and(reach, cond), f.r.assume), all); !ok {
		return false, "skipped when " + cut(litsStr(cx), 300)
	}
	if ok, cx := entails(and(all, f.r.assume), cond); !ok {
		return false, "done although " + cut(litsStr(cx), 300)
	}
	return true, ""
}

// strip forgets what is only known inside loops below the row's.
func (e *Engine) strip(g *Row, n *Node) *Node {
	if g.loop != nil {
		return e.dropNested(g.loop, n)
	}
	return e.preLoop(n)
}

// reached: the condition under which the row is processed.
func (f *sumForm) reached() *Node {
	r := f.r
	if f.g.gor == 0 {
		if r.entry == "PredictSingle" {
			return f.g.top(nil)
		}
		return and(r.success(), not(le0(polyOf(r.nRows))))
	}
	return bd.T
}

// counts: loop l runs exactly n times.
func (r *ERun) trips(l *LoopInst, n Val) bool {
	ok, _ := r.e.isTrip(l, n, r.assume)
	return ok
}

func (r *ERun) mulVal(a Val, t *Term) Val {
	return r.e.binop(token.MUL, a, sc(t), types.Typ[types.Int], types.Typ[types.Int])
}

// spread: the tree number and the cell both run over groups 0..G-1 and
// estimators 0..n-1, one tree per (estimator, group).
func (f *sumForm) spread(pc *piece, T *Term, unit func(estStride *Term) bool) (rule, why string) {
	r := f.r
	gd := pc.guard
	rest, crest := T, pc.cell
	var lk, li *LoopInst
	var ci *Term // stride of the estimator loop in the cell
	for _, l := range pc.loops {
		a, ra, ok1 := linearIn(rest, l.iv)
		b, rb, ok2 := linearIn(crest, l.iv)
		if !ok1 || !ok2 {
			return f.spreadFlat(pc, T)
		}
		rest, crest = ra, rb
		if z, c := a.intVal(); c && z == 0 {
			if z2, c2 := b.intVal(); c2 && z2 == 0 {
				return "tree-used", "a tree is added once per round of an unrelated loop"
			}
			return "tree-used", "the tree does not depend on a loop over cells"
		}
		switch {
		case eqUnder(gd, a, r.G) && (lk != nil || !eqUnder(gd, r.G, intTerm(1)) || (li == nil && f.tripsN(l))):
			if li != nil {
				return "tree-used", "two loops over estimators"
			}
			li, ci = l, b
		case eqUnder(gd, a, intTerm(1)):
			if lk != nil {
				return "tree-used", "two loops over groups"
			}
			lk = l
			if !unit(b) {
				return "tree-cell", fmt.Sprintf("group k's tree is counted for cell %v of the row", pc.cell)
			}
		default:
			return "tree-used", fmt.Sprintf("tree %v is used, expected estimator*groups+group", T)
		}
	}
	if !eqUnder(gd, rest, intTerm(0)) {
		return "tree-used", fmt.Sprintf("the first tree used is %v", rest)
	}
	if !eqUnder(gd, crest, intTerm(0)) {
		return "tree-cell", fmt.Sprintf("the first cell is %v", crest)
	}
	if lk == nil && !eqUnder(gd, r.G, intTerm(1)) {
		return "tree-used", "the trees of further groups are not used"
	}
	if li == nil {
		one := true
		for _, a := range altsOf(r.n) {
			if !unsat(and(gd, a.g)) && !eqUnder(and(gd, a.g), a.t, intTerm(1)) {
				one = false
			}
		}
		if !one {
			return "estimators", "no loop over estimators"
		}
	}
	if lk != nil && !r.trips(lk, sc(r.G)) && !(r.entry == "PredictSingle" && r.trips(lk, sc(intTerm(1)))) {
		_, w := r.e.isTrip(lk, sc(r.G), r.assume)
		return "tree-used", "not every group's tree is used: " + w
	}
	if li != nil && !f.tripsN(li) {
		_, w := r.e.isTrip(li, r.n, r.assume)
		return "estimators", "the number of estimators used is not the one asked for: " + w
	}
	_ = ci
	return "", ""
}

func (f *sumForm) tripsN(l *LoopInst) bool {
	return f.r.trips(l, f.r.n)
}

// spreadFlat: one loop over all trees, cell = tree mod G.
func (f *sumForm) spreadFlat(pc *piece, T *Term) (rule, why string) {
	r := f.r
	if len(pc.loops) != 1 || r.kind == "LeafIndex" {
		return "tree-used", fmt.Sprintf("tree %v for cell %v: not a known enumeration", T, pc.cell)
	}
	l := pc.loops[0]
	if T != l.iv || pc.cell != remTerm(T, r.G, types.Typ[types.Int]) {
		return "tree-used", fmt.Sprintf("tree %v for cell %v: not a known enumeration", T, pc.cell)
	}
	if !r.trips(l, r.mulVal(r.n, r.G)) {
		_, w := r.e.isTrip(l, r.mulVal(r.n, r.G), r.assume)
		return "estimators", "the number of estimators used is not the one asked for: " + w
	}
	return "", ""
}

// ruleScores: C07 (and C06: the rules named estimators).
func ruleScores(p *Program, c *Ctx) {
	p.predRuns(c, "sum", func(r *ERun) {
		if r.kind == "LeafIndex" {
			return
		}
		c.single(p, r)
		for _, g := range r.rows {
			if len(g.reads) > 0 {
				c.rowScores(p, r, g)
			}
		}
	})
}

// single: PredictSingle returns the score of the only output, 0 otherwise.
func (c *Ctx) single(p *Program, r *ERun) {
	if r.entry != "PredictSingle" || r.constant {
		return
	}
	for _, rt := range r.rets {
		for _, a := range altsOf(rt.val) {
			gd := and(and(rt.g, a.g), r.assume)
			if unsat(gd) {
				continue
			}
			if v, ok := a.t.floatVal(); ok && v == 0 {
				top := bd.F
				for _, g := range r.rows {
					top = or(top, g.top(p))
				}
				bad := and(r.e.preLoop(gd), r.e.preLoop(top))
				c.must(unsat(bad), "single-value", r.fn, rt.pos, "a computed score is replaced by 0")
				continue
			}
			ok := a.t.op == "load" && a.t.args[0].op == "index" && a.t.args[0].args[0] == r.result
			if ok {
				ok = eqUnder(gd, a.t.args[0].args[1], intTerm(0))
			}
			if !ok { // value forwarded from the store
				for _, g := range r.rows {
					for _, x := range g.stores {
						for _, b := range altsOf(x.val) {
							if b.t == a.t {
								ok = true
							}
						}
					}
				}
			}
			if pl := r.phiOf(a.t); !ok && pl != nil && pl.info.addr != nil && rootOf(pl.info.addr) == r.result {
				ok = true
			}
			c.must(ok, "single-value", r.fn, rt.pos, "the value returned is not the row's first output @@%v", a.t)
		}
	}
}

func (c *Ctx) rowScores(p *Program, r *ERun, g *Row) {
	rd := g.reads[0]
	in, pos := rd.in, rd.pos
	f, why := g.sumForm()
	if f == nil {
		c.violate("sum", in, pos, "the sum of a row cannot be followed @@%s", why)
		return
	}
	if why := f.collect(); why != "" {
		c.violate("sum", in, pos, "the score of a row is not a plain sum @@%s", why)
		return
	}
	if f.tcall != nil {
		x := f.tcall
		c.must(eqUnder(and(x.guard, r.assume), f.size, r.G) && eqUnder(and(x.guard, r.assume), f.lo, f.lo), "raw-slice", x.in, x.pos, "the transformation is given %v raw scores instead of one per group", f.size)
	}
	hasTrees := r.hasTrees(p)
	var inits, accs, consts []*piece
	for _, pc := range f.pieces {
		calls, _ := r.treeRes(p, g, pc.t)
		feat := r.featElem(g, pc.t)
		switch {
		case len(calls) > 0 || feat != nil:
			if !pc.acc {
				// first tree starts the sum: only base 0 and a special case; not followed
				c.violate("sum-init", pc.x.in, pc.x.pos, "a score starts from a tree's output instead of being added to the initial value")
				return
			}
			accs = append(accs, pc)
		case pc.acc:
			consts = append(consts, pc)
		default:
			inits = append(inits, pc)
		}
	}
	if len(f.scales) > 0 {
		isB := func(t types.Type) bool { return isBoolT(t) }
		sc0 := f.scales[0]
		var flag *Term
		for _, a := range support(f.top(sc0)) {
			if r.modelField(a, isB) {
				flag = a
			}
		}
		c.must(hasTrees && r.modelHas(isB), "coefficient", sc0.x.in, sc0.x.pos, "the scores of a row are multiplied by %v", sc0.t)
		if flag != nil {
			ok, w := f.everyCell(f.scales, bd.atom(flag))
			c.must(ok, "coefficient", sc0.x.in, sc0.x.pos, "not every sum is averaged exactly once @@%s", w)
		} else {
			c.must(false, "coefficient", sc0.x.in, sc0.x.pos, "sums and averages are not told apart")
		}
		for _, s := range f.scales {
			num, den := product(s.t)
			c.must(len(num) == 0 && len(den) == 1 && r.isFloatOf(den[0], r.n, s.guard), "coefficient", s.x.in, s.x.pos, "scores are multiplied by %v", s.t)
			for _, pc := range f.pieces {
				c.must(r.seqOf(pc.x) < r.seqOf(s.x) && !commonLoop(pc.loops, s.loops), "sum-order", s.x.in, s.x.pos, "the average is taken before the sum is complete")
			}
			if f.tcall != nil {
				c.must(r.seqOf(s.x) < r.seqOf(f.tcall) && !commonLoop(s.loops, loopsAfter(f.tcall, g.loop)), "sum-order", f.tcall.in, f.tcall.pos, "the transformation is applied before the scores are complete")
			}
		}
	}
	// variable part
	chs := chainsOf(accs)
	if !c.must(len(accs) > 0, "sum-used", in, pos, "nothing is added to the scores of a row") {
		return
	}
	ok, w := f.covered(chs)
	c.must(ok, "sum-used", accs[0].x.in, accs[0].x.pos, "the contributions of a row's trees or features can be left out or counted twice @@%s", w)
	for _, pc := range accs {
		if hasTrees {
			c.treePiece(p, r, f, pc)
		} else {
			c.linearPiece(p, r, f, pc)
		}
	}
	c.initPieces(p, r, f, inits, consts, accs)
	// order
	for _, i := range append(append([]*piece{}, inits...), consts...) {
		for _, a := range accs {
			if i.x == a.x {
				continue
			}
			before := r.seqOf(i.x) < r.seqOf(a.x)
			if before {
				// inside a common loop the start value must not come back
				for _, l := range i.loops {
					if hasLoop(a.loops, l) {
						co, _, ok := linearIn(i.cell, l.iv)
						n, isC := int64(0), false
						if ok {
							n, isC = co.intVal()
						}
						if !ok || (isC && n == 0) {
							before = false
						}
					}
				}
			}
			if !before && unsat(and(r.e.strip(g, f.top(i)), r.e.strip(g, f.top(a)))) {
				before = true
			}
			c.must(before, "sum-order", i.x.in, i.x.pos, "scores are initialised after (or again after) something was added")
		}
	}
	if f.tcall != nil {
		for _, pc := range f.pieces {
			c.must(r.seqOf(pc.x) < r.seqOf(f.tcall) && !commonLoop(pc.loops, loopsAfter(f.tcall, g.loop)), "sum-order", f.tcall.in, f.tcall.pos, "the transformation is applied before the scores are complete")
		}
	}
}

func (f *sumForm) top(pc *piece) *Node {
	if len(pc.loops) > 0 {
		return pc.loops[0].entry
	}
	return pc.guard
}

func commonLoop(a, b []*LoopInst) bool {
	for _, l := range a {
		if hasLoop(b, l) {
			return true
		}
	}
	return false
}

func hasLoop(ls []*LoopInst, l *LoopInst) bool {
	for _, o := range ls {
		if o == l {
			return true
		}
	}
	return false
}

func (r *ERun) seqOf(x *Effect) int {
	for i, y := range r.effs {
		if x == y {
			return i
		}
	}
	return -1
}

// factors of a product / quotient.
func product(t *Term) (num, den []*Term) {
	switch t.op {
	case "fmul":
		a, b := product(t.args[0])
		c, d := product(t.args[1])
		return append(a, c...), append(b, d...)
	case "fdiv":
		a, b := product(t.args[0])
		c, d := product(t.args[1])
		return append(a, d...), append(b, c...)
	}
	if v, ok := t.floatVal(); ok && v == 1 {
		return nil, nil
	}
	return []*Term{t}, nil
}

func (c *Ctx) treePiece(p *Program, r *ERun, f *sumForm, pc *piece) {
	in, pos := pc.x.in, pc.x.pos
	calls, idx := r.treeRes(p, f.g, pc.t)
	if !c.must(len(calls) == 1 && idx[0] == 0, "tree-value", in, pos, "a summand is not one tree's output value @@%v", pc.t) {
		return
	}
	call := calls[0]
	T, why := r.treeNo(p, call)
	if T == nil {
		c.violate("tree-used", in, pos, "the tree a summand comes from is unknown @@%s", why)
		return
	}
	rule, why := f.spread(pc, T, func(b *Term) bool { return eqUnder(pc.guard, b, intTerm(1)) })
	for _, ru := range []string{"tree-used", "tree-cell", "estimators"} {
		if rule == "" || ru == rule {
			c.must(rule == "", ru, in, pos, "wrong trees or cells in the sum @@%s", why)
		}
	}
	// coefficient
	res := resTerm(call, 0)
	num, den := product(pc.t)
	var rest []*Term
	found := 0
	for _, t := range num {
		if t == res {
			found++
		} else {
			rest = append(rest, t)
		}
	}
	if !c.must(found == 1, "tree-value", in, pos, "a summand is not a tree's output times a coefficient @@%v", pc.t) {
		return
	}
	isW := func(t types.Type) bool { return sliceOf(t, types.Float64) }
	isB := func(t types.Type) bool { return isBoolT(t) }
	switch {
	case r.modelHas(isW):
		ok := len(rest) == 1 && len(den) == 0 && rest[0].op == "load" && rest[0].args[0].op == "index"
		if ok {
			b, lo, _ := sliceBase(rest[0].args[0].args[0])
			ix := rest[0].args[0].args[1]
			if lo != nil {
				ix = add(ix, lo)
			}
			ok = r.modelField(b, isW) && eqUnder(pc.guard, ix, T)
		}
		c.must(ok, "coefficient", in, pos, "a tree's output is not multiplied by that tree's own weight @@%v", pc.t)
	case r.modelHas(isB):
		var flag *Term
		for _, a := range support(pc.guard) {
			if r.modelField(a, isB) {
				flag = a
			}
		}
		avg := len(rest) == 0 && len(den) == 1 && r.isFloatOf(den[0], r.n, pc.guard)
		plain := len(rest) == 0 && len(den) == 0
		if len(f.scales) > 0 {
			c.must(plain, "coefficient", in, pos, "a tree's output is averaged twice @@%v", pc.t)
			break
		}
		if flag == nil {
			c.must(false, "coefficient", in, pos, "sums and averages are not told apart")
			break
		}
		on, _ := entails(pc.guard, bd.atom(flag))
		off, _ := entails(pc.guard, not(bd.atom(flag)))
		c.must((on && avg) || (off && plain), "coefficient", in, pos, "wrong coefficient of a tree's output @@%v when %s", pc.t, map[bool]string{true: "averaging", false: "not averaging"}[on])
	default:
		c.must(len(rest) == 0 && len(den) == 0, "coefficient", in, pos, "a tree's output is multiplied by %v", pc.t)
	}
}

// isFloatOf: t is the integer n converted to floating point.
func (r *ERun) isFloatOf(t *Term, n Val, gd *Node) bool {
	for _, a := range altsOf(n) {
		g := and(gd, a.g)
		if unsat(g) {
			continue
		}
		want := convTerm(a.t, types.Typ[types.Int], types.Typ[types.Float64])
		if t == want {
			continue
		}
		ok := false
		if t.op == "gv" {
			for _, b := range t.obj.(*Scalar).alts {
				if !unsat(and(g, b.g)) {
					ok = b.t == want
					if !ok {
						return false
					}
				}
			}
		}
		if !ok {
			if t.op == want.op && t.aux == want.aux && len(t.args) == 1 && len(want.args) == 1 && eqUnder(g, t.args[0], want.args[0]) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// featElem: a feature value of the row inside t.
func (r *ERun) featElem(g *Row, t *Term) *Term {
	bases := []*Term{r.features()}
	if g.scr != nil {
		bases = []*Term{g.scr}
	}
	for _, b := range bases {
		if ls := indexLoads(t, b); len(ls) > 0 {
			return ls[0]
		}
	}
	return nil
}

func (c *Ctx) linearPiece(p *Program, r *ERun, f *sumForm, pc *piece) {
	in, pos := pc.x.in, pc.x.pos
	num, den := product(pc.t)
	fe := r.featElem(f.g, pc.t)
	ok := len(num) == 2 && len(den) == 0
	var wt *Term
	if ok {
		switch {
		case num[0] == fe:
			wt = num[1]
		case num[1] == fe:
			wt = num[0]
		}
	}
	ix := r.weightIdx(wt)
	if !c.must(ix != nil, "tree-value", in, pos, "a summand is not a feature value times its weight @@%v", pc.t) {
		return
	}
	gd := pc.guard
	// feature number relative to the row
	fi := fe.args[0].args[1]
	if r.entry == "PredictDense" {
		fi = sub(fi, mul(f.g.r, one(r.ps[3])))
	}
	rest, crest, frest := ix, pc.cell, fi
	var lk, li *LoopInst
	for _, l := range pc.loops {
		a, ra, ok1 := linearIn(rest, l.iv)
		b, rb, ok2 := linearIn(crest, l.iv)
		d, rd, ok3 := linearIn(frest, l.iv)
		if !ok1 || !ok2 || !ok3 {
			c.violate("tree-used", in, pos, "weight %v of feature %v for cell %v: not a known enumeration", ix, fi, pc.cell)
			return
		}
		rest, crest, frest = ra, rb, rd
		dn, _ := d.intVal()
		bn, _ := b.intVal()
		switch {
		case dn == 1 && isZeroT(b) && eqUnder(gd, a, r.G) && li == nil:
			li = l
		case bn == 1 && isZeroT(d) && eqUnder(gd, a, intTerm(1)) && lk == nil:
			lk = l
		default:
			c.violate("tree-used", in, pos, "feature i contributes to group k with a weight other than w[i*groups+k] @@weight %v, feature %v, cell %v", ix, fi, pc.cell)
			return
		}
	}
	z := isZeroT(rest) && eqUnder(gd, crest, intTerm(0)) && eqUnder(gd, frest, intTerm(0))
	c.must(z, "tree-used", in, pos, "features, weights or cells are shifted @@weight %v, feature %v, cell %v", ix, fi, pc.cell)
	F := r.F
	c.must(li != nil && r.trips(li, F), "tree-used", in, pos, "not every feature of the model is used exactly once")
	c.must((lk != nil && (r.trips(lk, sc(r.G)) || (r.entry == "PredictSingle" && r.trips(lk, sc(intTerm(1)))))) || (lk == nil && eqUnder(gd, r.G, intTerm(1))), "tree-cell", in, pos, "not every group receives the contributions of the features")
}

func isZeroT(t *Term) bool {
	n, ok := t.intVal()
	return ok && n == 0
}

// weightIdx: index of the model weight t, nil when t is none.
func (r *ERun) weightIdx(t *Term) *Term {
	isW := func(t types.Type) bool { return sliceOf(t, types.Float32) || sliceOf(t, types.Float64) }
	for t != nil && (t.op == "conv" || t.op == "fconv") && len(t.args) == 1 {
		t = t.args[0]
	}
	if t == nil || t.op != "load" || t.args[0].op != "index" {
		return nil
	}
	b, lo, _ := sliceBase(t.args[0].args[0])
	if !r.modelField(b, isW) {
		return nil
	}
	ix := t.args[0].args[1]
	if lo != nil {
		ix = add(ix, lo)
	}
	return ix
}

// initPieces: every cell starts from the model's constant part.
func (c *Ctx) initPieces(p *Program, r *ERun, f *sumForm, inits, consts, accs []*piece) {
	in, pos := accs[0].x.in, accs[0].x.pos
	hasTrees := r.hasTrees(p)
	hasBase := r.modelHas(isF64)
	biasN := 0
	all := append(append([]*piece{}, inits...), consts...)
	var bases, biases []*piece
	for _, pc := range all {
		if v, ok := pc.t.floatVal(); ok {
			c.must(v == 0, "sum-init", pc.x.in, pc.x.pos, "scores start from %v", v)
			continue
		}
		if hasBase && r.modelField(pc.t, isF64) {
			bases = append(bases, pc)
			continue
		}
		if ix := r.weightIdx(pc.t); !hasTrees && ix != nil {
			biases = append(biases, pc)
			F := one(r.F)
			want := add(mul(F, r.G), pc.cell)
			c.must(eqUnder(pc.guard, ix, want), "sum-init", pc.x.in, pc.x.pos, "the bias of group k is read from weight %v", ix)
			continue
		}
		c.must(false, "sum-init", pc.x.in, pc.x.pos, "an unexpected constant %v is part of the scores", pc.t)
	}
	_ = biasN
	if hasBase {
		ok, w := f.onceInit(bases)
		c.must(ok, "sum-init", in, pos, "the model's base score is not part of every score exactly once @@%s", w)
	}
	if !hasTrees {
		ok, w := f.onceInit(biases)
		c.must(ok, "sum-init", in, pos, "the bias is not part of every score exactly once @@%s", w)
	}
	// whatever was in the buffer before is gone
	if len(inits) == 0 && f.fresh && f.g.loop != nil && r.e.rootIn(f.base, f.g.loop) {
		return
	}
	if len(inits) == 0 && f.fresh && f.g.loop == nil {
		return
	}
	ok, w := f.onceInit(inits)
	if !ok && hasBase && len(bases) > 0 {
		ok, w = f.onceInit(dedupe(inits))
	}
	c.must(ok, "sum-init", in, pos, "a score is added to whatever the buffer held before @@%s", w)
}

func (e *Engine) rootIn(t *Term, l *LoopInst) bool {
	for _, o := range e.owner[rootOf(t)] {
		if o == l {
			return true
		}
	}
	return false
}

// dedupe keeps one piece per store.
func dedupe(ps []*piece) []*piece {
	var out []*piece
	seen := map[*Effect]*piece{}
	for _, p := range ps {
		if q := seen[p.x]; q != nil {
			q.guard = or(q.guard, p.guard)
			continue
		}
		q := *p
		seen[p.x] = &q
		out = append(out, &q)
	}
	return out
}

// onceInit: the pieces reach every cell of the row exactly once.
func (f *sumForm) onceInit(ps []*piece) (bool, string) {
	return f.everyCell(ps, bd.T)
}

func (f *sumForm) everyCell(ps []*piece, cond *Node) (bool, string) {
	r := f.r
	if len(ps) == 0 {
		return false, "missing"
	}
	ps = dedupe(ps)
	chs := chainsOf(ps)
	if ok, w := f.coveredIf(chs, cond); !ok {
		return false, w
	}
	for _, pc := range ps {
		rest := pc.cell
		n := 0
		for _, l := range pc.loops {
			co, ra, ok := linearIn(rest, l.iv)
			if !ok {
				return false, "cells not enumerated"
			}
			rest = ra
			if k, isC := co.intVal(); !isC || k != 1 {
				if isC && k == 0 {
					if pc.acc {
						return false, "added repeatedly"
					}
					continue
				}
				return false, "cells not enumerated one by one"
			}
			n++
			if !r.trips(l, sc(r.G)) && !(r.entry == "PredictSingle" && r.trips(l, sc(intTerm(1)))) {
				_, w := r.e.isTrip(l, sc(r.G), r.assume)
				return false, "not every cell: " + w
			}
		}
		if n > 1 {
			return false, "cells not enumerated"
		}
		if !eqUnder(pc.guard, rest, intTerm(0)) {
			return false, fmt.Sprintf("first cell %v", rest)
		}
		if n == 0 && !eqUnder(pc.guard, r.G, intTerm(1)) {
			return false, "only one cell"
		}
	}
	return true, ""
}

// ruleLeaves: C08.
func ruleLeaves(p *Program, c *Ctx) {
	p.predRuns(c, "leaf", func(r *ERun) {
		if r.kind != "LeafIndex" || r.noLeaves(p) {
			return
		}
		for _, g := range r.rows {
			if len(g.reads) > 0 {
				c.rowLeaves(p, r, g)
			}
		}
	})
}

func (c *Ctx) rowLeaves(p *Program, r *ERun, g *Row) {
	rd := g.reads[0]
	f := &sumForm{r: r, g: g, base: r.result, lo: mul(g.r, r.O), size: r.O}
	if r.entry == "PredictSingle" {
		f.lo = intTerm(0)
	}
	if len(g.tcalls) > 0 {
		c.violate("leaf-value", g.tcalls[0].in, g.tcalls[0].pos, "leaf indices are transformed")
		return
	}
	var ps []*piece
	var zeros []*piece
	for _, x := range g.stores {
		if !r.isResult(x) {
			continue
		}
		idx := r.resultIdx(x.addr)
		if idx == nil {
			continue
		}
		for _, a := range altsOf(x.val) {
			gd := and(and(x.guard, a.g), r.assume)
			if unsat(gd) {
				continue
			}
			pc := &piece{x: x, cell: sub(idx, f.lo), guard: gd, loops: loopsAfter(x, g.loop), t: a.t, acc: true}
			if v, ok := a.t.floatVal(); ok && v == 0 {
				zeros = append(zeros, pc)
				continue
			}
			ps = append(ps, pc)
		}
	}
	if !c.must(len(ps) > 0, "leaf-value", rd.in, rd.pos, "no leaf index is stored") {
		return
	}
	ok, w := f.covered(chainsOf(ps))
	c.must(ok, "leaf-all", ps[0].x.in, ps[0].x.pos, "the leaf index of a tree can be left out or stored twice @@%s", w)
	for _, pc := range ps {
		in, pos := pc.x.in, pc.x.pos
		calls, idx := r.treeRes(p, g, pc.t)
		good := len(calls) == 1 && idx[0] == 1
		if good {
			res := resTerm(calls[0], 1)
			good = pc.t == res || pc.t == convTerm(res, res.typ, types.Typ[types.Float64])
		}
		if !c.must(good, "leaf-value", in, pos, "what is stored is not the index of the leaf reached in one tree @@%v", pc.t) {
			continue
		}
		T, why := r.treeNo(p, calls[0])
		if T == nil {
			c.violate("leaf-tree", in, pos, "the tree a leaf index comes from is unknown @@%s", why)
			continue
		}
		// group loop advances the cell by n, estimator loop by 1
		gd := pc.guard
		var lk, li *LoopInst
		rest, crest := T, pc.cell
		bad := ""
		for _, l := range pc.loops {
			a, ra, ok1 := linearIn(rest, l.iv)
			b, rb, ok2 := linearIn(crest, l.iv)
			if !ok1 || !ok2 {
				bad = fmt.Sprintf("tree %v in cell %v: not a known enumeration", T, pc.cell)
				break
			}
			rest, crest = ra, rb
			isN := true
			for _, al := range altsOf(r.n) {
				if !unsat(and(gd, al.g)) && !eqUnder(and(gd, al.g), b, al.t) {
					isN = false
				}
			}
			is1 := eqUnder(gd, b, intTerm(1))
			switch {
			case li == nil && eqUnder(gd, a, r.G) && is1 && f.tripsN(l):
				li = l
			case lk == nil && eqUnder(gd, a, intTerm(1)) && isN && r.trips(l, sc(r.G)):
				lk = l
			default:
				bad = fmt.Sprintf("the leaf of tree %v is stored in cell %v of the row, expected group*estimators+estimator for tree estimator*groups+group", T, pc.cell)
			}
		}
		if bad == "" {
			switch {
			case li == nil || (lk == nil && !eqUnder(gd, r.G, intTerm(1))):
				bad = "not every estimator and group is enumerated"
			case !eqUnder(gd, rest, intTerm(0)) || !eqUnder(gd, crest, intTerm(0)):
				bad = fmt.Sprintf("first tree %v, first cell %v", rest, crest)
			}
		}
		if li != nil || bad != "" {
			c.must(li != nil, "leaf-estimators", in, pos, "the leaf indices stored are not those of the estimators asked for @@%s", bad)
		}
		c.must(bad == "", "leaf-layout", in, pos, "leaf indices are laid out wrongly or the number of estimators differs from the one asked for @@%s", bad)
	}
	for _, z := range zeros {
		for _, pc := range ps {
			c.must(r.seqOf(z.x) < r.seqOf(pc.x) && !commonLoop(z.loops, pc.loops), "leaf-order", z.x.in, z.x.pos, "leaf indices are overwritten")
		}
	}
}

// ruleEstimators: C06. The number of estimators asked for is the number used.
func ruleEstimators(p *Program, c *Ctx) {
	c.only = map[string]bool{"estimators": true, "leaf-estimators": true, "count": true, "leaf-refuse": true}
	ruleScores(p, c)
	ruleLeaves(p, c)
	p.predRuns(c, "estimators", func(r *ERun) {
		if r.kind == "LeafIndex" && !r.noLeaves(p) && r.entry != "PredictSingle" {
			for _, a := range altsOf(r.n) {
				for _, b := range altsOf(r.E) {
					gd := and(and(r.success(), a.g), b.g)
					if unsat(gd) {
						continue
					}
					c.must(eqUnder(r.e.preLoop(gd), a.t, b.t), "leaf-refuse", r.fn, r.fn.Pos(), "leaf indices of fewer than all estimators are not refused")
				}
			}
		}
		if !r.hasTrees(p) {
			return
		}
		// estimators: trees per group
		for _, a := range altsOf(r.E) {
			ok := a.t.op == "div" && eqUnder(and(r.assume, a.g), a.t.args[1], r.G) && r.isTreeCount(p, a.t.args[0])
			if !ok && eqUnder(and(r.assume, a.g), r.G, intTerm(1)) {
				ok = r.isTreeCount(p, a.t)
			}
			c.must(ok, "count", p.fn("", "Ensemble.NEstimators"), 0, "the number of estimators is not the number of trees per output group @@%v", a.t)
		}
	})
}

// isTreeCount: the length of the model's list of trees.
func (r *ERun) isTreeCount(p *Program, t *Term) bool {
	lt := p.typ("", "lgTree")
	return t.op == "len" && r.modelField(t.args[0], func(ty types.Type) bool {
		sl, ok := ty.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		el := sl.Elem()
		if pt, ok := el.(*types.Pointer); ok {
			el = pt.Elem()
		}
		return types.Identical(el, lt)
	})
}

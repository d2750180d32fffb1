package main

// C17: every transformation writes exactly its announced cells with its
// function of the raw scores.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type trRun struct {
	p     *Program
	c     *Ctx
	e     *Engine
	fn    *ssa.Function
	raw   *Term
	out   *Term
	start *Term
	n     *Term // len(raw)
	succ  *Node
}

var transNames = map[string]string{"Raw": "raw", "Logistic": "logistic", "Softmax": "softmax", "LeafIndex": "leaf_index", "Exponential": "exponential"}

// constOf: value of a package-level constant.
func (p *Program) constOf(rel, name string) (int64, bool) {
	pk := p.pkg(rel)
	if pk == nil {
		return 0, false
	}
	o, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(o.Val()))
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) runM(e *Engine, recv *Term, t types.Type, name string) (Val, *ssa.Function) {
	fn := p.methodOf(t, name)
	if fn == nil {
		panic(undecided("no method " + name))
	}
	ps := e.symParams(fn)
	ps[0] = sc(recv)
	v, _, _, _ := e.Run(fn, ps, bd.T, newState())
	return v, fn
}

func ruleTransform(p *Program, c *Ctx) {
	kinds := map[int64]string{}
	for k := range transNames {
		if v, ok := p.constOf("transformation", k); ok {
			kinds[v] = k
		}
	}
	c.must(len(kinds) == len(transNames), "kinds", nil, 0, "the transformation kinds are not distinct constants")
	// names of the kinds
	if nf := p.methodOf(p.typ("transformation", "TransformType"), "Name"); nf != nil {
		for v, k := range kinds {
			e := p.engine()
			ps := e.symParams(nf)
			ps[0] = sc(constTerm(constant.MakeInt64(v), nf.Params[0].Type()))
			r, _, _, _ := e.Run(nf, ps, bd.T, newState())
			s := ""
			if t := one(r); t != nil {
				s, _ = t.strVal()
			}
			c.must(s == transNames[k], "name", nf, nf.Pos(), "the kind %s is named %q", k, s)
		}
	}
	seen := map[string]bool{}
	for _, t := range p.shape().transImpl {
		t := t
		tf := p.methodOf(t, "Transform")
		c.guarded("transform", tf, func() {
			e := p.engine()
			recv := mkTerm("sym", "t", t)
			ty, tyf := p.runM(e, recv, t, "Type")
			kind := ""
			if k := one(ty); k != nil {
				if v, ok := k.intVal(); ok {
					kind = kinds[v]
				}
			}
			if !c.must(kind != "", "kind", tyf, tyf.Pos(), "Type of %s is not one of the known kinds @@%s", baseName(t), vstr(ty)) {
				return
			}
			seen[kind] = true
			nm, nmf := p.runM(e, recv, t, "Name")
			s := ""
			if k := one(nm); k != nil {
				s, _ = k.strVal()
			}
			c.must(s == transNames[kind], "name", nmf, nmf.Pos(), "the %s transformation is announced as %q", kind, s)
			ov, of := p.runM(e, recv, t, "NOutputGroups")
			O := one(ov)
			if O == nil {
				panic(undecided("NOutputGroups of " + baseName(t)))
			}
			if kind == "Logistic" || kind == "Exponential" {
				v, ok := O.intVal()
				c.must(ok && v == 1, "outputs", of, of.Pos(), "the %s transformation announces %v outputs", kind, O)
			}
			c.transform(p, t, recv, kind, O)
		})
	}
	for k := range transNames {
		c.must(seen[k], "kinds", nil, 0, "no transformation of kind %s", k)
	}
	c.sigmoids(p)
	c.floor("value", 5)
	c.floor("cells", 5)
}

// dropIV forgets facts about loop counters, but not about what loops computed.
func dropIV(g *Node) *Node {
	return exists(g, func(t *Term) bool {
		return findSub(t, func(x *Term) bool { return x.op == "iv" }) != nil
	})
}

type pass struct {
	base *Term
	l    *LoopInst
	cell *Term // relative to the first cell, in terms of l.iv
	xs   []*Effect
	g    *Node
	seq  int
	cov  string // "" if it covers all cells
}

func (r *trRun) passes(size *Term) []*pass {
	var out []*pass
	bad := func(x *Effect, f string, a ...interface{}) { r.c.violate("cells", x.in, x.pos, f, a...) }
	for _, x := range r.e.effects {
		switch x.kind {
		case "store":
			if x.addr.op != "index" || !isFloat(x.addr.typ.(*types.Pointer).Elem()) {
				if rootOf(x.addr) == r.out || rootOf(x.addr) == r.raw {
					bad(x, "a store into the caller's memory that is not a result cell @@%v", x.addr)
				}
				continue
			}
		case "copy":
		default:
			continue
		}
		var base, idx *Term
		if x.kind == "copy" {
			d, s := one(x.args[0]), one(x.args[1])
			if d == nil || s == nil {
				panic(undecided("copy between several slices"))
			}
			db, lo, _ := sliceBase(d)
			if rootOf(db) != r.out && !isFreshRoot(rootOf(db)) {
				bad(x, "a copy into memory that is not the result @@%v", d)
				continue
			}
			if lo == nil {
				lo = intTerm(0)
			}
			// elements of the source, position by position
			iv := mkTerm("iv", fmt.Sprintf("copy%d", x.seq), types.Typ[types.Int])
			pe := *x
			pe.kind = "store"
			sb, slo, shi := sliceBase(s)
			if slo == nil {
				slo = intTerm(0)
			}
			et := sb.typ.Underlying().(*types.Slice).Elem()
			pe.val = r.e.loadVal(newState(), indexAddr(sb, add(slo, iv), et), et)
			cnt := lenTerm(s)
			if shi != nil {
				cnt = sub(shi, slo)
			}
			l := &LoopInst{id: iv.aux, iv: iv, fn: x.in, entry: x.guard, back: and(x.guard, not(le0(polyOf(sub(cnt, iv))))), exits: []*Node{and(x.guard, le0(polyOf(sub(cnt, iv))))}}
			r.e.setOwner(iv, []*LoopInst{l})
			pe.loops = append(append([]*LoopInst{}, x.loops...), l)
			pe.guard = l.back
			x = &pe
			base, idx = db, add(lo, iv)
		} else {
			base, idx = x.addr.args[0], x.addr.args[1]
		}
		if base == r.raw {
			bad(x, "the raw scores are modified")
			continue
		}
		if len(x.loops) > 1 {
			bad(x, "a cell is written inside nested loops")
			continue
		}
		var l *LoopInst
		if len(x.loops) == 1 {
			l = x.loops[0]
		}
		cell := idx
		if base == r.out {
			cell = sub(idx, r.start)
		}
		var ps *pass
		for _, q := range out {
			if q.base == base && q.l == l && q.cell == cell {
				ps = q
			}
		}
		if ps == nil {
			ps = &pass{base: base, l: l, cell: cell, g: bd.F}
			out = append(out, ps)
		}
		ps.xs = append(ps.xs, x)
		ps.g = or(ps.g, x.guard)
		ps.seq = x.seq
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].seq < out[j].seq })
	for _, q := range out {
		if q.base != r.out && !isFreshRoot(rootOf(q.base)) {
			r.c.violate("cells", r.fn, q.xs[0].pos, "a store outside the result @@%v", q.base)
			continue
		}
		q.cov = r.coverage(q, size)
	}
	return out
}

// coverage: the pass writes each of the size cells on every successful path
// (except where the sum of exponentials is zero).
func (r *trRun) coverage(q *pass, size *Term) string {
	sum0 := func(g *Node) *Node {
		for _, a := range support(g) {
			if a.op == "feq" && (isFZero(a.args[0]) || isFZero(a.args[1])) {
				g = and(g, not(bd.atom(a)))
			}
		}
		return g
	}
	some := not(eq0(polyOf(size)))
	if q.l == nil {
		if k, ok := q.cell.intVal(); !ok || k != 0 {
			return fmt.Sprintf("cell %v is written, not the first", q.cell)
		}
		if ok, _ := entails(q.g, eq0(polyOf(sub(size, intTerm(1))))); !ok {
			return "only the first cell is written"
		}
		if ok, cx := entails(and(dropIV(sum0(r.succ)), some), q.g); !ok {
			return "skipped when " + cut(litsStr(cx), 200)
		}
		return ""
	}
	up := eqUnder(q.g, q.cell, q.l.iv)
	down := eqUnder(q.g, q.cell, sub(sub(size, intTerm(1)), q.l.iv))
	if !up && !down {
		return fmt.Sprintf("the cell written is %v", q.cell)
	}
	if ok, w := r.e.isTrip(q.l, sc(size), bd.T); !ok {
		return w
	}
	if ok, w := r.e.mustReach(q.g, []*LoopInst{q.l}, nil); !ok {
		return w
	}
	if ok, cx := entails(and(dropIV(sum0(r.succ)), some), dropIV(q.l.entry)); !ok {
		return "skipped when " + cut(litsStr(cx), 200)
	}
	return ""
}

// resolve replaces loads of cells written by an earlier pass by what was
// written there.
func (r *trRun) resolve(ps []*pass, x *Effect, t *Term, depth int) *Term {
	if depth > 6 {
		panic(undecided("values handed on through too many passes"))
	}
	rw := newRewriter(func(y *Term) *Term {
		if y.op != "load" || y.args[0].op != "index" {
			return nil
		}
		b := y.args[0].args[0]
		if b == r.raw {
			return mkTerm("load", "", y.typ, y.args[0])
		}
		if b != r.out && !isFreshRoot(rootOf(b)) {
			return nil
		}
		var last *pass
		for _, q := range ps {
			if q.base != b || q.seq >= x.seq {
				continue
			}
			if len(x.loops) > 0 && q.l == x.loops[0] {
				continue
			}
			last = q
		}
		if last == nil || last.cov != "" || len(last.xs) != 1 {
			return nil
		}
		v := one(last.xs[0].val)
		if v == nil {
			return nil
		}
		v = r.resolve(ps, last.xs[0], v, depth+1)
		if last.l == nil {
			return v
		}
		cell := y.args[0].args[1]
		if b == r.out {
			cell = sub(cell, r.start)
		}
		co, rest, ok := linearIn(last.cell, last.l.iv)
		if !ok {
			return nil
		}
		k, isC := co.intVal()
		if !isC || (k != 1 && k != -1) {
			return nil
		}
		d := sub(cell, rest)
		if k < 0 {
			d = sub(rest, cell)
		}
		return substTerm(v, map[*Term]*Term{last.l.iv: d})
	})
	return rw.term(t)
}

func (c *Ctx) transform(p *Program, t types.Type, recv *Term, kind string, O *Term) {
	fn := p.methodOf(t, "Transform")
	e := p.engine()
	ps := e.symParams(fn)
	ps[0] = sc(recv)
	r := &trRun{p: p, c: c, e: e, fn: fn, raw: one(ps[1]), out: one(ps[2]), start: one(ps[3])}
	r.n = lenTerm(r.raw)
	_, _, _, rets := e.Run(fn, ps, bd.T, newState())
	r.succ = bd.F
	for _, rt := range rets {
		r.succ = or(r.succ, and(rt.g, errIsNil(rt.val)))
	}
	fit := eq0(polyOf(sub(r.n, O)))
	top := e.preLoop(r.succ)
	strict := kind != "Raw" && kind != "LeafIndex"
	if strict {
		ok, cx := entails(top, fit)
		c.must(ok, "refuses", fn, fn.Pos(), "the %s transformation accepts a wrong number of raw scores @@when %s", kind, litsStr(cx))
	}
	fail := bd.F
	for _, rt := range rets {
		fail = or(fail, and(rt.g, not(errIsNil(rt.val))))
	}
	x := and(e.preLoop(fail), fit)
	c.must(unsat(x), "accepts", fn, fn.Pos(), "the %s transformation refuses the right number of raw scores @@when %s", kind, first(x))
	x = and(fit, not(top))
	c.must(unsat(x), "accepts", fn, fn.Pos(), "the %s transformation does not succeed with the right number of raw scores @@when %s", kind, first(x))
	all := r.passes(r.n)
	// stores happen only on paths that succeed
	var outs []*pass
	for _, q := range all {
		if q.base == r.out {
			outs = append(outs, q)
		}
	}
	for _, q := range outs {
		for _, x := range q.xs {
			g := and(e.preLoop(x.guard), not(top))
			c.must(unsat(g), "error-writes", x.in, x.pos, "the %s transformation writes a cell and reports an error @@when %s", kind, first(g))
			// inside the announced cells
			care := and(x.guard, fit)
			ok1, _ := entails(care, le0(polyOf(sub(intTerm(0), q.cell))))
			ok2, w := e.proveLE(q.cell, sub(O, intTerm(1)), care, ivsOf(x.loops))
			if !ok2 {
				ok2, w = e.proveLE(q.cell, sub(r.n, intTerm(1)), care, ivsOf(x.loops))
			}
			if !ok1 {
				ok1, _ = e.proveLE(intTerm(0), q.cell, care, ivsOf(x.loops))
			}
			c.must(ok1 && ok2, "cells", x.in, x.pos, "the %s transformation writes a cell that is not one of its outputs @@cell %v: %s", kind, q.cell, w)
		}
	}
	if len(outs) == 0 {
		c.must(false, "cells", fn, fn.Pos(), "the %s transformation writes nothing", kind)
		return
	}
	// last complete pass
	li := -1
	for i, q := range outs {
		if q.cov == "" {
			li = i
		}
	}
	if !c.must(li >= 0, "cells", fn, outs[len(outs)-1].xs[0].pos, "the %s transformation does not write all its cells @@%s", kind, outs[len(outs)-1].cov) {
		return
	}
	// under several stores in one pass, their guards together cover (checked
	// by coverage); each value must be right. A pass that a later one always
	// overwrites does not matter.
	for _, q := range outs[li:] {
		for _, x := range q.xs {
			for _, a := range altsOf(x.val) {
				g := and(x.guard, a.g)
				if unsat(g) {
					continue
				}
				v := r.resolve(all, x, a.t, 0)
				why := r.value(kind, all, q, x, v, g)
				c.must(why == "", "value", x.in, x.pos, "a cell of the %s transformation is not its function of the raw scores: %s @@%v", kind, why, v)
			}
		}
	}
}

func (r *trRun) rawAt(i *Term) *Term {
	et := r.raw.typ.Underlying().(*types.Slice).Elem()
	return one(r.e.loadVal(newState(), indexAddr(r.raw, i, et), et))
}

func (r *trRun) value(kind string, all []*pass, q *pass, x *Effect, v *Term, g *Node) string {
	switch kind {
	case "Raw", "LeafIndex":
		if v != r.rawAt(q.cell) {
			ok := false
			if v.op == "load" && v.args[0].op == "index" && v.args[0].args[0] == r.raw {
				ok = eqUnder(g, v.args[0].args[1], q.cell)
			}
			if !ok {
				return "not the raw score of its position"
			}
		}
		return ""
	case "Exponential":
		f, ok := ratOf(v, r.rawAt(intTerm(0)))
		if !ok || !f.equal(ratFn{rpoly{1: big.NewRat(1, 1)}, rpoly{0: big.NewRat(1, 1)}}) {
			return "not exp(x)"
		}
		return ""
	case "Logistic":
		return logistic(v, r.rawAt(intTerm(0)), g)
	case "Softmax":
		return r.softmax(all, q, x, v, g)
	}
	return "unknown kind"
}

func logistic(v, arg *Term, g *Node) string {
	f, ok := ratOf(v, arg)
	one1 := big.NewRat(1, 1)
	if !ok || !f.equal(ratFn{rpoly{1: one1}, rpoly{0: one1, 1: one1}}) {
		return "not 1/(1+exp(-x))"
	}
	// inf/inf: a quotient whose numerator grows with the argument
	zero := floatTerm(0)
	neg := or(fltCmp("<", arg, zero), fltCmp("<=", arg, zero))
	pos := or(fltCmp("<", zero, arg), fltCmp("<=", zero, arg))
	bad := ""
	g = and(g, not(isNaN(arg)))
	findSub(v, func(y *Term) bool {
		if y.op == "fdiv" {
			if findSub(y.args[0], func(z *Term) bool { return expDir(z, arg) > 0 }) != nil {
				if ok, _ := entails(g, neg); !ok {
					bad = "the quotient overflows for large scores"
				}
			}
			if findSub(y.args[0], func(z *Term) bool { return expDir(z, arg) < 0 }) != nil {
				if ok, _ := entails(g, pos); !ok {
					bad = "the quotient overflows for small scores"
				}
			}
		}
		return false
	})
	return bad
}

// expDir: 1 for exp(x), -1 for exp(-x).
func expDir(t, x *Term) int {
	if t.op != "call" || t.aux != "math.Exp" || len(t.args) != 1 {
		return 0
	}
	a := t.args[0]
	if a == x {
		return 1
	}
	if a.op == "fneg" && a.args[0] == x || a.op == "fsub" && isFZero(a.args[0]) && a.args[1] == x {
		return -1
	}
	if a.op == "fmul" {
		for i := range a.args {
			if v, ok := a.args[i].floatVal(); ok && v == -1 && a.args[1-i] == x {
				return -1
			}
		}
	}
	return 0
}

// rational functions of exp(x)
type rpoly map[int]*big.Rat
type ratFn struct{ n, d rpoly }

func (a rpoly) mul(b rpoly) rpoly {
	o := rpoly{}
	for i, x := range a {
		for j, y := range b {
			z := new(big.Rat).Mul(x, y)
			if o[i+j] != nil {
				z.Add(z, o[i+j])
			}
			o[i+j] = z
		}
	}
	return o
}

func (a rpoly) add(b rpoly, s int64) rpoly {
	o := rpoly{}
	for i, x := range a {
		o[i] = new(big.Rat).Set(x)
	}
	for i, x := range b {
		z := new(big.Rat).Mul(x, big.NewRat(s, 1))
		if o[i] != nil {
			z.Add(z, o[i])
		}
		o[i] = z
	}
	return o
}

func (a rpoly) zero() bool {
	for _, x := range a {
		if x.Sign() != 0 {
			return false
		}
	}
	return true
}

func (f ratFn) equal(g ratFn) bool {
	if f.d.zero() || g.d.zero() {
		return false
	}
	return f.n.mul(g.d).add(g.n.mul(f.d), -1).zero()
}

func ratOf(t, x *Term) (ratFn, bool) {
	one := rpoly{0: big.NewRat(1, 1)}
	if v, ok := t.floatVal(); ok {
		if math.IsInf(v, 0) || math.IsNaN(v) {
			return ratFn{}, false
		}
		return ratFn{rpoly{0: new(big.Rat).SetFloat64(v)}, one}, true
	}
	if d := expDir(t, x); d != 0 {
		return ratFn{rpoly{d: big.NewRat(1, 1)}, one}, true
	}
	switch t.op {
	case "fneg":
		a, ok := ratOf(t.args[0], x)
		return ratFn{rpoly{}.add(a.n, -1), a.d}, ok
	case "fadd", "fsub", "fmul", "fdiv":
		a, ok1 := ratOf(t.args[0], x)
		b, ok2 := ratOf(t.args[1], x)
		if !ok1 || !ok2 {
			return ratFn{}, false
		}
		switch t.op {
		case "fadd":
			return ratFn{a.n.mul(b.d).add(b.n.mul(a.d), 1), a.d.mul(b.d)}, true
		case "fsub":
			return ratFn{a.n.mul(b.d).add(b.n.mul(a.d), -1), a.d.mul(b.d)}, true
		case "fmul":
			return ratFn{a.n.mul(b.n), a.d.mul(b.d)}, true
		}
		return ratFn{a.n.mul(b.d), a.d.mul(b.n)}, true
	}
	return ratFn{}, false
}

func (r *trRun) phi(t *Term) (*LoopInst, *PhiInfo) {
	for _, l := range r.e.loopByID {
		for _, p := range append(append([]*PhiInfo{}, l.phis...), l.mem...) {
			if p.sym == t {
				return l, p
			}
		}
	}
	return nil, nil
}

// shifted: t is exp(raw[i]-m)
func (r *trRun) shifted(t *Term) (i, m *Term, why string) {
	if t.op != "call" || t.aux != "math.Exp" {
		return nil, nil, "not an exponential"
	}
	a := t.args[0]
	if a.op == "load" {
		return nil, nil, "exp of the score itself overflows for large scores"
	}
	if a.op != "fsub" {
		return nil, nil, "not the exponential of a shifted score"
	}
	v := a.args[0]
	if v.op != "load" || v.args[0].op != "index" || v.args[0].args[0] != r.raw {
		return nil, nil, "not the exponential of a raw score"
	}
	return v.args[0].args[1], a.args[1], ""
}

func (r *trRun) softmax(all []*pass, q *pass, x *Effect, v *Term, g *Node) string {
	num, den := product(v)
	if len(num) != 1 || len(den) != 1 {
		return "not an exponential divided by the sum"
	}
	i, m, why := r.shifted(num[0])
	if why != "" {
		return why
	}
	if !eqUnder(g, i, q.cell) {
		return fmt.Sprintf("cell %v gets the value of score %v", q.cell, i)
	}
	if why := r.isMax(m); why != "" {
		return why
	}
	l, ph := r.phi(den[0])
	if l == nil {
		return "the divisor is not a sum"
	}
	if z := one(ph.init); z == nil || !isFZero(z) {
		return "the sum does not start at zero"
	}
	if ok, w := r.e.isTrip(l, sc(r.n), bd.T); !ok {
		return "the sum does not run over all scores: " + w
	}
	var summand *Term
	for _, a := range altsOf(ph.next) {
		if unsat(and(a.g, l.back)) {
			continue
		}
		t := a.t
		if t.op != "fadd" || summand != nil {
			return "the sum is not of all exponentials"
		}
		switch den[0] {
		case t.args[0]:
			summand = t.args[1]
		case t.args[1]:
			summand = t.args[0]
		default:
			return "the sum is not of all exponentials"
		}
	}
	if summand == nil {
		return "the sum is not of all exponentials"
	}
	fake := &Effect{seq: 1 << 30, loops: []*LoopInst{l}}
	for _, y := range r.e.effects { // position of the summing loop
		if hasLoop(y.loops, l) {
			fake.seq = y.seq
		}
	}
	s := r.resolve(all, fake, summand, 0)
	j, m2, why := r.shifted(s)
	if why != "" {
		return "the summand is " + why
	}
	if m2 != m {
		return "summand and numerator are shifted differently"
	}
	if !eqUnder(l.back, j, l.iv) && !eqUnder(l.back, j, sub(sub(r.n, intTerm(1)), l.iv)) {
		return fmt.Sprintf("the summand is of score %v", j)
	}
	return ""
}

func isFZero(t *Term) bool {
	v, ok := t.floatVal()
	return ok && v == 0
}

func isNegInf(t *Term) bool {
	if t.op == "call" && t.aux == "math.Inf" {
		k, ok := t.args[0].intVal()
		return ok && k < 0
	}
	if v, ok := t.floatVal(); ok {
		return v <= -math.MaxFloat64
	}
	return false
}

// isMax: m is the largest raw score.
func (r *trRun) isMax(m *Term) string {
	l, ph := r.phi(m)
	if l == nil {
		return "the shift is not the largest score"
	}
	init := one(ph.init)
	if init == nil {
		return "the largest score is searched from several values"
	}
	from0 := init == r.rawAt(intTerm(0))
	if !from0 && !isNegInf(init) {
		return fmt.Sprintf("the search for the largest score starts at %v", init)
	}
	var v *Term
	isRaw := func(t *Term) bool {
		if t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == r.raw {
			if v == nil {
				v = t
			}
			return v == t
		}
		return false
	}
	for _, a := range altsOf(ph.next) {
		g := and(a.g, l.back)
		switch {
		case unsat(g) || a.t == m:
		case isRaw(a.t):
		case a.t.op == "call" && a.t.aux == "math.Max" && (a.t.args[0] == m && isRaw(a.t.args[1]) || a.t.args[1] == m && isRaw(a.t.args[0])):
		default:
			return "the shift is not the largest score"
		}
	}
	if v == nil {
		return "the shift is not the largest score"
	}
	for _, a := range altsOf(ph.next) {
		g := and(a.g, l.back)
		if a.t == m && !unsat(and(g, fltCmp("<", m, v))) || a.t == v && !unsat(and(g, fltCmp("<", v, m))) {
			return "the shift is not the largest score"
		}
	}
	i := v.args[0].args[1]
	for _, k := range []int64{0, 1} {
		if k == 1 && !from0 {
			continue
		}
		n := sub(r.n, intTerm(k))
		if eqUnder(l.back, i, add(l.iv, intTerm(k))) || eqUnder(l.back, i, sub(sub(n, intTerm(1)), l.iv)) && k == 0 {
			ok, w := r.e.isTrip(l, sc(n), not(le0(polyOf(r.n))))
			if ok {
				return ""
			}
			return "the search for the largest score does not visit all scores: " + w
		}
	}
	return "the search for the largest score does not visit all scores"
}

// sigmoids: the exported helper agrees with the definition.
func (c *Ctx) sigmoids(p *Program) {
	fn := p.fnOpt("util", "Sigmoid")
	if fn == nil {
		return
	}
	c.guarded("value", fn, func() {
		e := p.engine()
		ps := e.symParams(fn)
		v, _, _, _ := e.Run(fn, ps, bd.T, newState())
		for _, a := range altsOf(v) {
			why := logistic(a.t, one(ps[0]), a.g)
			c.must(why == "", "value", fn, fn.Pos(), "Sigmoid: %s", why)
		}
	})
	c.sigmoidList(p)
}

// sigmoidList: the helper for lists replaces each element by its function,
// once.
func (c *Ctx) sigmoidList(p *Program) {
	fn := p.fnOpt("util", "SigmoidFloat64SliceInplace")
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	c.guarded("value", fn, func() {
		e := p.engine()
		ps := e.symParams(fn)
		vec := one(ps[0])
		_, _, _, rets := e.Run(fn, ps, bd.T, newState())
		r := &trRun{p: p, c: c, e: e, fn: fn, raw: mkTerm("sym", "none", vec.typ), out: vec, start: intTerm(0), n: lenTerm(vec), succ: bd.F}
		for _, q := range rets {
			r.succ = or(r.succ, q.g)
		}
		all := r.passes(r.n)
		if !c.must(len(all) == 1 && all[0].base == vec, "cells", fn, fn.Pos(), "the elements are not replaced in one pass") {
			return
		}
		q := all[0]
		if !c.must(q.cov == "", "cells", fn, q.xs[0].pos, "not every element is replaced @@%s", q.cov) {
			return
		}
		for i, x := range q.xs {
			for _, y := range q.xs[:i] {
				c.must(unsat(and(x.guard, y.guard)), "value", fn, x.pos, "an element is replaced twice")
			}
			for _, a := range altsOf(x.val) {
				if unsat(and(x.guard, a.g)) {
					continue
				}
				arg := findSub(a.t, func(t *Term) bool {
					return t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == vec && eqUnder(x.guard, t.args[0].args[1], q.cell)
				})
				why := "it does not depend on the element"
				if arg != nil {
					why = logistic(a.t, arg, and(x.guard, a.g))
				}
				c.must(why == "", "value", fn, x.pos, "SigmoidFloat64SliceInplace: %s", why)
			}
		}
	})
}

func init() {
	reg("C17", ruleTransform, "Every implementation of the Transform interface is evaluated symbolically. Rule: its kind, name and number of outputs agree; the stores into the output lie inside the announced cells, happen only on paths that return nil, and the last complete pass over the cells stores, for cell i, the definition (raw score, exp, logistic as a rational function of exp(x), softmax as exp(x_i-m) over the sum of all exp(x_j-m) with m the maximum); the number of raw scores is checked.", asmInts, asmFloat, "transformations with their own size field are created with matching sizes (C16)")
}

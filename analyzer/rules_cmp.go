package main

// C27: the comparison helpers find every difference beyond the threshold and
// nothing else.

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// cmpCase: how two numbers x and y and the threshold t lie to each other.
type cmpCase struct {
	name       string
	ord        int  // x compared with y
	nanX, nanY bool // not a number
	inf        bool // x and y are the same infinity
	d, t       float64
	match      bool
}

func cmpCases() (out []cmpCase) {
	for _, t := range []float64{0, 2} {
		out = append(out,
			cmpCase{name: "both are the same number", t: t, match: true},
			cmpCase{name: "both are the same infinity", t: t, inf: true, d: math.NaN(), match: true},
			cmpCase{name: "only the first is NaN", t: t, nanX: true, d: math.NaN()},
			cmpCase{name: "only the second is NaN", t: t, nanY: true, d: math.NaN()})
		for _, o := range []int{-1, 1} {
			if t == 0 {
				out = append(out, cmpCase{name: "they differ and the threshold is 0", ord: o, d: 1, t: t})
				continue
			}
			out = append(out,
				cmpCase{name: "they differ by less than the threshold", ord: o, d: 1, t: t, match: true},
				cmpCase{name: "they differ by exactly the threshold", ord: o, d: 2, t: t, match: true},
				cmpCase{name: "they differ by more than the threshold", ord: o, d: 3, t: t})
		}
	}
	return
}

// value of a term in a case: group 1 are the numbers themselves, group 2
// their difference, the threshold and 0.
func (k *cmpCase) value(v, x, y, t *Term) (float64, int, bool) {
	nan := math.NaN()
	switch v {
	case x:
		if k.nanX {
			return nan, 1, true
		}
		return float64(k.ord), 1, true
	case y:
		if k.nanY {
			return nan, 1, true
		}
		return 0, 1, true
	case t:
		return k.t, 2, true
	}
	if f, ok := v.floatVal(); ok && f == 0 {
		return 0, 2, true
	}
	switch {
	case v.op == "fneg":
		if f, g, ok := k.value(v.args[0], x, y, t); ok && g == 2 {
			return -f, 2, true
		}
	case v.op == "fsub" && v.args[0] == x && v.args[1] == y:
		return float64(k.ord) * k.d, 2, true
	case v.op == "fsub" && v.args[0] == y && v.args[1] == x:
		return -float64(k.ord) * k.d, 2, true
	case v.op == "fsub":
		if f, ok := v.args[0].floatVal(); ok && f == 0 {
			if f, g, ok := k.value(v.args[1], x, y, t); ok && g == 2 {
				return -f, 2, true
			}
		}
	case isCall(v, "math.Abs"):
		if f, g, ok := k.value(v.args[0], x, y, t); ok && g == 2 {
			return math.Abs(f), 2, true
		}
	case isCall(v, "math.Max") && len(v.args) == 2:
		a, g, ok := k.value(v.args[0], x, y, t)
		b, h, ok2 := k.value(v.args[1], x, y, t)
		if ok && ok2 && g == h {
			return math.Max(a, b), g, true
		}
	}
	return 0, 0, false
}

// node: the case as a condition on the comparisons that occur in gs.
func (k *cmpCase) node(x, y, t *Term, gs ...*Node) *Node {
	out := bd.T
	set := func(a *Term, v bool) {
		if v {
			out = and(out, bd.atom(a))
		} else {
			out = and(out, not(bd.atom(a)))
		}
	}
	for _, g := range gs {
		for _, a := range support(g) {
			switch a.op {
			case "flt", "fle", "feq":
				p, g1, ok1 := k.value(a.args[0], x, y, t)
				q, g2, ok2 := k.value(a.args[1], x, y, t)
				if !ok1 || !ok2 || g1 != g2 && !math.IsNaN(p) && !math.IsNaN(q) {
					continue
				}
				switch a.op {
				case "flt":
					set(a, p < q)
				case "fle":
					set(a, p <= q)
				default:
					set(a, p == q)
				}
			case "isnan":
				if p, _, ok := k.value(a.args[0], x, y, t); ok {
					set(a, math.IsNaN(p))
				}
			}
		}
	}
	if unsat(out) {
		panic(undecided("comparisons of floating-point numbers when " + k.name))
	}
	return out
}

// elemAt: the element of the list at the place of the loop, counted from the
// start or from the end.
func elemAt(g *Node, list, iv *Term, rev *Term) *Term {
	var out *Term
	for _, a := range support(g) {
		findSub(a, func(t *Term) bool {
			if out != nil || t.op != "load" || t.args[0].op != "index" || t.args[0].args[0] != list {
				return false
			}
			at := t.args[0].args[1]
			if rev == nil && at == iv || rev != nil && isZeroT(sub(add(add(stripInt(at), iv), intTerm(1)), rev)) {
				out = t
			}
			return false
		})
	}
	return out
}

func (e *Engine) pairOf(l *LoopInst, a, b *Term, gs ...*Node) (x, y *Term) {
	for _, rev := range []*Term{nil, lenTerm(a), lenTerm(b)} {
		x, y = nil, nil
		for _, g := range gs {
			if x == nil {
				x = elemAt(g, a, l.iv, rev)
			}
			if y == nil {
				y = elemAt(g, b, l.iv, rev)
			}
		}
		if x != nil && y != nil {
			return
		}
	}
	return
}

func ruleCompare(p *Program, c *Ctx) {
	const rule = "compare"
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	opaque := func(*ssa.Function) bool { return false }
	if f := p.fn("util", "AlmostEqualFloat64"); f != nil {
		c.guarded(rule, f, func() {
			e, rets := p.runRoot(f, opaque)
			ps := e.symParams(f)
			x, y, t := one(ps[0]), one(ps[1]), one(ps[2])
			res := bd.F
			for _, q := range rets {
				res = or(res, and(q.g, asBool(q.val)))
			}
			for _, k := range cmpCases() {
				h := k.node(x, y, t, res)
				want := res
				if k.match {
					want = not(res)
				}
				c.must(unsat(and(h, want)), rule, f, f.Pos(), "wrong answer for two numbers when %s", k.name)
			}
		})
	}
	for _, nm := range []string{"AlmostEqualFloat64Slices", "NumMismatchedFloat64Slices"} {
		f := p.fn("util", nm)
		counts := nm[0] == 'N'
		c.guarded(rule, f, func() {
			e, rets := p.runRoot(f, opaque)
			ps := e.symParams(f)
			a, b, t := one(ps[0]), one(ps[1]), one(ps[2])
			same := asBool(e.binop(token.EQL, sc(lenTerm(a)), sc(lenTerm(b)), I, B))
			done := 0
			for _, q := range rets {
				good := errIsNil(q.val)
				bad := and(q.g, not(good))
				ok := and(q.g, good)
				if counts {
					c.imply(bad, not(same), rule, f, q.pos, "lists of the same length are refused")
				}
				if !unsat(ok) {
					c.imply(ok, same, rule, f, q.pos, "lists of different lengths are compared")
				}
				if counts && !unsat(ok) {
					for _, v := range altsOf(q.val.(*TupleVal).v[0]) {
						g := and(ok, v.g)
						if unsat(g) {
							continue
						}
						done++
						if isZeroT(v.t) {
							c.imply(g, eq0(polyOf(lenTerm(a))), rule, f, q.pos, "0 is returned without looking at the elements")
							continue
						}
						l, ph := e.phiBySym(stripInt(v.t))
						if !c.must(ph != nil && one(ph.init) != nil && isZeroT(one(ph.init)), rule, f, q.pos, "the result is not a count that starts with 0 @@%v", v.t) {
							continue
						}
						c.must(intBits(ph.sym.typ) >= 32, rule, f, q.pos, "the count is kept in a type that is too small for it")
						fin, why := e.doneAt(l, sc(lenTerm(a)), g, and(l.back, same))
						c.must(fin, rule, f, q.pos, "not all elements are compared: %s", why)
						gs := []*Node{l.back}
						for _, n := range altsOf(ph.next) {
							gs = append(gs, n.g)
						}
						x, y := e.pairOf(l, a, b, gs...)
						if !c.must(x != nil && y != nil, rule, f, q.pos, "the elements of one position are not compared with each other") {
							continue
						}
						for _, k := range cmpCases() {
							h := and(k.node(x, y, t, gs...), l.back)
							want := int64(1)
							if k.match {
								want = 0
							}
							for _, n := range altsOf(ph.next) {
								if unsat(and(h, n.g)) {
									continue
								}
								d, isC := sub(n.t, ph.sym).intVal()
								c.must(isC && d == want, rule, f, q.pos, "a pair is counted wrongly when %s", k.name)
							}
						}
					}
				}
				if counts {
					continue
				}
				// the other form: an error at the first difference
				if !unsat(ok) {
					done++
					fin := false
					why := "no loop over the elements"
					for _, l := range e.loopByID {
						r, w := e.doneAt(l, sc(lenTerm(a)), ok, and(l.back, same))
						if !r {
							why = w
							continue
						}
						x, y := e.pairOf(l, a, b, append([]*Node{l.back}, l.exits...)...)
						if x == nil || y == nil {
							why = "the elements of one position are not compared with each other"
							continue
						}
						fin = true
						for _, k := range cmpCases() {
							if k.match {
								continue
							}
							h := k.node(x, y, t, l.back)
							c.must(unsat(and(h, l.back)), rule, f, q.pos, "a difference is not found when %s", k.name)
						}
					}
					if unsat(and(ok, not(eq0(polyOf(lenTerm(a)))))) {
						fin = true
					}
					c.must(fin, rule, f, q.pos, "not all elements are compared: %s", why)
				}
				if h := and(bad, same); !unsat(h) {
					found := false
					for _, l := range e.loopByID {
						x, y := e.pairOf(l, a, b, h)
						if x == nil || y == nil {
							continue
						}
						found = true
						for _, k := range cmpCases() {
							if k.match {
								c.must(unsat(and(k.node(x, y, t, h), h)), rule, f, q.pos, "lists are said to differ when %s", k.name)
							}
						}
					}
					c.must(found, rule, f, q.pos, "lists of the same length are said to differ without a comparison of elements")
				}
			}
			c.must(done > 0, rule, f, f.Pos(), "it never succeeds")
			c.must(e.onlyLocal(), rule, f, f.Pos(), "a list that is compared is changed")
		})
	}
	c.floor(rule, 30)
}

// onlyLocal: stores only go to memory the function made itself.
func (e *Engine) onlyLocal() bool {
	for _, x := range e.effects {
		if x.kind == "store" && x.addr != nil && rootOf(x.addr).op != "alloc" && rootOf(x.addr).op != "make" {
			return false
		}
	}
	return true
}

func init() {
	reg("C27", ruleCompare, symText+"Rule: in every case of how two numbers and the threshold can lie to each other (order, equality, infinities, NaN, difference below, at or above the threshold) the comparisons made decide match or mismatch as stated; a loop over all positions of two lists of the same length takes every pair into account.", asmInts, "the threshold is neither negative nor NaN; a pair of two NaN may count either way")
}

package main

// Loop trip counts, must-execute facts, bounds of affine expressions,
// substitution.

import (
	"go/token"
	"go/types"
)

// hasInner: atom mentions something produced inside l other than its counter.
func (e *Engine) mentions(l *LoopInst, a *Term, skip *Term) bool {
	return findSub(a, func(x *Term) bool {
		if x == skip {
			return false
		}
		for _, o := range e.owner[x] {
			if o == l {
				return true
			}
		}
		if x.op == "gv" {
			for _, al := range x.obj.(*Scalar).alts {
				for _, y := range support(al.g) {
					if e.mentions(l, y, skip) {
						return true
					}
				}
			}
		}
		return false
	}) != nil
}

// nestedOnly: mentions something of a loop nested strictly inside l.
func (e *Engine) nestedIn(l *LoopInst, a *Term) bool {
	return findSub(a, func(x *Term) bool {
		os := e.owner[x]
		for i, o := range os {
			if o == l && i < len(os)-1 {
				return true
			}
		}
		return false
	}) != nil
}

func (e *Engine) dropNested(l *LoopInst, g *Node) *Node {
	return exists(g, func(t *Term) bool { return e.nestedIn(l, t) })
}
func (e *Engine) dropVariant(l *LoopInst, g *Node) *Node {
	return exists(g, func(t *Term) bool { return e.variant(l, t) })
}

// isTrip: l runs for exactly the counter values with "stop" false, i.e. its
// only way out is the condition stop (monotone in the counter), and leaves
// nothing else undone.
func (e *Engine) isTripNode(l *LoopInst, stop *Node) (bool, string) {
	return e.stopsOn(l, stop, l.iv)
}

func (e *Engine) stopsOn(l *LoopInst, stop *Node, keep *Term) (bool, string) {
	x := exists(or(l.exits...), func(t *Term) bool { return e.mentions(l, t, keep) })
	b := exists(l.back, func(t *Term) bool { return e.mentions(l, t, keep) })
	h := or(x, b)
	if ok, cx := equivTh(x, stop, h); !ok {
		return false, "the loop stops under another condition: " + cut(litsStr(cx), 300)
	}
	if ok, cx := equivTh(b, not(stop), h); !ok {
		return false, "the loop leaves early: " + cut(litsStr(cx), 300)
	}
	return true, ""
}

func (e *Engine) isTrip(l *LoopInst, n Val, assume *Node, factors ...*Term) (bool, string) {
	I := types.Typ[types.Int]
	why := ""
	for i := -1; i < len(factors); i++ {
		a, b := Val(sc(l.iv)), n
		if i >= 0 {
			if _, isC := factors[i].intVal(); isC {
				continue
			}
			a = e.binop(token.MUL, a, sc(factors[i]), I, I)
			b = e.binop(token.MUL, b, sc(factors[i]), I, I)
		}
		stop := asBool(e.binop(token.GEQ, a, b, I, types.Typ[types.Bool]))
		ok, w := e.isTripNode(l, stop)
		if ok {
			return true, ""
		}
		if why == "" {
			why = w
		}
	}
	return false, why
}

// mustExec: whenever control reaches outer (its body when outer is a loop),
// the effect is executed on every path that completes the enclosing loops.
func (e *Engine) mustExec(x *Effect, outer *LoopInst) (bool, string) {
	return e.mustReach(x.guard, x.loops, outer)
}

func (e *Engine) mustReach(g *Node, loops []*LoopInst, outer *LoopInst) (bool, string) {
	i0 := 0
	if outer != nil {
		i0 = -1
		for i, l := range loops {
			if l == outer {
				i0 = i
			}
		}
		if i0 < 0 {
			return false, "not inside the loop"
		}
	}
	for i := len(loops) - 1; i >= i0; i-- {
		l := loops[i]
		b := e.dropNested(l, l.back)
		gg := e.dropNested(l, g)
		if ok, cx := entails(b, gg); !ok {
			return false, "skipped when " + cut(litsStr(cx), 300)
		}
		g = l.entry
	}
	return true, ""
}

// ---- bounds -------------------------------------------------------------------

// cubes enumerates the consistent assignments of g restricted to atoms that
// matter for the terms in seed.
func (e *Engine) relevantCubes(g *Node, seed []*Term, rounds int) [][]Lit {
	rel := map[*Term]bool{}
	var addT func(t *Term)
	addT = func(t *Term) {
		if t.isConst() || rel[t] {
			return
		}
		if t.op == "poly" {
			for _, m := range t.poly {
				for _, f := range m.fs {
					addT(f)
				}
			}
			return
		}
		rel[t] = true
		if t.op == "div" || t.op == "rem" || t.op == "len" {
			for _, a := range t.args {
				addT(a)
			}
		}
	}
	for _, t := range seed {
		addT(t)
	}
	vars := func(a *Term) []*Term {
		if a.op != "le0" && a.op != "eq0" {
			return nil
		}
		var out []*Term
		for _, m := range polyOf(a.args[0]) {
			out = append(out, m.fs...)
		}
		return out
	}
	sup := support(g)
	keep := map[*Term]bool{}
	for r := 0; r < rounds; r++ {
		var add []*Term
		for _, a := range sup {
			if keep[a] {
				continue
			}
			for _, v := range vars(a) {
				if rel[v] {
					keep[a] = true
					add = append(add, vars(a)...)
					break
				}
			}
		}
		for _, v := range add {
			addT(v)
		}
	}
	h := exists(g, func(t *Term) bool { return !keep[t] })
	var out [][]Lit
	var path []Lit
	var rec func(n *Node)
	rec = func(n *Node) {
		if n == bd.F {
			return
		}
		if n == bd.T {
			if consistent(path) {
				out = append(out, append([]Lit{}, path...))
			}
			if len(out) > 4000 {
				panic(undecided("too many cases"))
			}
			return
		}
		t := bd.vars[n.v]
		path = append(path, Lit{t, true})
		rec(n.hi)
		path[len(path)-1] = Lit{t, false}
		rec(n.lo)
		path = path[:len(path)-1]
	}
	rec(h)
	return out
}

func litsNode(ls []Lit) *Node {
	g := bd.T
	for _, l := range ls {
		if l.pos {
			g = and(g, bd.atom(l.t))
		} else {
			g = and(g, not(bd.atom(l.t)))
		}
	}
	return g
}

// boundAbove proves p <= lim under g, replacing loop counters by the largest
// value the guard allows, one at a time.
func (e *Engine) proveLE(p, lim *Term, g *Node, ivs []*Term) (bool, string) {
	d := sub(p, lim)
	seed := append([]*Term{d}, ivs...)
	for _, cube := range e.relevantCubes(g, seed, 3) {
		if !e.provLE0(polyOf(d), cube, ivs, 0) {
			return false, "not shown when " + cut(litsStr(cube), 400)
		}
	}
	return true, ""
}

func (e *Engine) provLE0(p []Mono, cube []Lit, ivs []*Term, depth int) bool {
	neg := polyAdd(polyScale(p, -1), []Mono{{c: 1}})
	goal := le0(neg) // p >= 1
	if goal == bd.F {
		return true
	}
	lits := append([]Lit{}, cube...)
	cg := litsNode(lits)
	if unsat(and(cg, goal)) {
		return true
	}
	if depth > 4 {
		return false
	}
	pt := polyTerm(polyNorm(append([]Mono{}, p...)), types.Typ[types.Int])
	for _, iv := range ivs {
		coef, rest, ok := linearIn(pt, iv)
		if !ok {
			continue
		}
		if n, isC := coef.intVal(); isC && n == 0 {
			continue
		}
		// sign of the coefficient
		cneg := unsat(and(cg, le0(polyAdd(polyScale(polyOf(coef), -1), []Mono{{c: 1}})))) // coef >= 1 impossible
		cpos := unsat(and(cg, le0(polyAdd(polyOf(coef), []Mono{{c: 1}}))))                // coef <= -1 impossible
		switch {
		case cneg:
			if e.provLE0(polyOf(rest), cube, ivs, depth+1) {
				return true
			}
		case cpos:
			for _, l := range cube {
				if l.t.op != "le0" {
					continue
				}
				q := polyOf(l.t.args[0])
				if !l.pos {
					q = polyAdd(polyScale(q, -1), []Mono{{c: 1}})
				}
				// q <= 0
				c2, r2, ok := linearIn(polyTerm(q, types.Typ[types.Int]), iv)
				if !ok {
					continue
				}
				if n, isC := c2.intVal(); isC && n == 1 {
					// iv <= -r2
					np := polyAdd(polyOf(rest), polyMul(polyOf(coef), polyScale(polyOf(r2), -1)))
					if e.provLE0(np, cube, ivs, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- substitution ----------------------------------------------------------------

func substTerm(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.isConst() {
		return t
	}
	if t.op == "poly" {
		var out []Mono
		for _, mo := range t.poly {
			acc := []Mono{{c: mo.c}}
			for _, f := range mo.fs {
				acc = polyMul(acc, polyOf(substTerm(f, m)))
			}
			out = append(out, acc...)
		}
		return polyTerm(polyNorm(out), t.typ)
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = substTerm(a, m)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.op {
	case "index":
		return indexAddr(as[0], as[1], t.typ.(*types.Pointer).Elem())
	case "len":
		return lenTerm(as[0])
	case "div":
		return divTerm(as[0], as[1], t.typ)
	case "rem":
		return remTerm(as[0], as[1], t.typ)
	}
	r := mkTerm(t.op, t.aux, t.typ, as...)
	if r.obj == nil {
		r.obj = t.obj
	}
	return r
}

func substNode(n *Node, m map[*Term]*Term) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n == bd.T || n == bd.F {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		a := bd.vars[n.v]
		var an *Node
		switch a.op {
		case "le0":
			an = le0(polyOf(substTerm(a.args[0], m)))
		case "eq0":
			an = eq0(polyOf(substTerm(a.args[0], m)))
		default:
			an = bd.atom(substTerm(a, m))
		}
		r := bd.ite(an, rec(n.hi), rec(n.lo))
		memo[n] = r
		return r
	}
	return rec(n)
}

// polyDivBy splits p = q*x + r with r free of x.
func polyDivBy(p, x *Term) (q, r *Term, ok bool) {
	if n, isC := x.intVal(); isC {
		if n == 1 {
			return p, intTerm(0), true
		}
		if n == 0 {
			return nil, nil, false
		}
		var qm, rm []Mono
		for _, m := range polyOf(p) {
			if m.c%n == 0 {
				qm = append(qm, Mono{m.c / n, m.fs})
			} else {
				rm = append(rm, m)
			}
		}
		return polyTerm(polyNorm(qm), types.Typ[types.Int]), polyTerm(polyNorm(rm), types.Typ[types.Int]), true
	}
	q, r, ok = linearIn(p, x)
	return
}

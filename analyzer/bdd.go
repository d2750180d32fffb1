package main

// A small reduced ordered BDD package. Variables are atom terms (see term.go);
// the order is the creation order of the atoms. BDDs are the boolean half of
// the abstract domain: guards of values, of effects and of returns.

type Node struct {
	v      int // variable index; -1 for terminals
	lo, hi *Node
	id     int
}

type bddKey struct{ v, lo, hi int }
type iteKey struct{ f, g, h int }

type BDD struct {
	uniq  map[bddKey]*Node
	cache map[iteKey]*Node
	T, F  *Node
	n     int
	vars  []*Term
	varOf map[*Term]int
}

func newBDD() *BDD {
	b := &BDD{uniq: map[bddKey]*Node{}, cache: map[iteKey]*Node{}, varOf: map[*Term]int{}}
	b.F = &Node{v: -1, id: 0}
	b.T = &Node{v: -1, id: 1}
	b.n = 2
	return b
}

var bd = newBDD()

func (b *BDD) mk(v int, lo, hi *Node) *Node {
	if lo == hi {
		return lo
	}
	k := bddKey{v, lo.id, hi.id}
	if n, ok := b.uniq[k]; ok {
		return n
	}
	n := &Node{v: v, lo: lo, hi: hi, id: b.n}
	b.n++
	if b.n > 4000000 {
		panic(undecided("guard diagram too large"))
	}
	b.uniq[k] = n
	return n
}

func (b *BDD) atom(t *Term) *Node {
	i, ok := b.varOf[t]
	if !ok {
		i = len(b.vars)
		b.vars = append(b.vars, t)
		b.varOf[t] = i
	}
	return b.mk(i, b.F, b.T)
}

func topVar(a, c, d *Node) int {
	m := 1 << 30
	for _, x := range []*Node{a, c, d} {
		if x.v >= 0 && x.v < m {
			m = x.v
		}
	}
	return m
}

func cof(n *Node, v int) (lo, hi *Node) {
	if n.v == v {
		return n.lo, n.hi
	}
	return n, n
}

func (b *BDD) ite(f, g, h *Node) *Node {
	switch {
	case f == b.T:
		return g
	case f == b.F:
		return h
	case g == h:
		return g
	case g == b.T && h == b.F:
		return f
	}
	k := iteKey{f.id, g.id, h.id}
	if r, ok := b.cache[k]; ok {
		return r
	}
	v := topVar(f, g, h)
	f0, f1 := cof(f, v)
	g0, g1 := cof(g, v)
	h0, h1 := cof(h, v)
	r := b.mk(v, b.ite(f0, g0, h0), b.ite(f1, g1, h1))
	b.cache[k] = r
	return r
}

func and(xs ...*Node) *Node {
	r := bd.T
	for _, x := range xs {
		r = bd.ite(r, x, bd.F)
	}
	return r
}
func or(xs ...*Node) *Node {
	r := bd.F
	for _, x := range xs {
		r = bd.ite(r, bd.T, x)
	}
	return r
}
func not(x *Node) *Node        { return bd.ite(x, bd.F, bd.T) }
func xor(x, y *Node) *Node     { return bd.ite(x, not(y), y) }
func implies(x, y *Node) *Node { return or(not(x), y) }

// simplify f under the care set c (Coudert/Madre restrict).
func simplify(f, c *Node) *Node {
	if c == bd.F {
		return bd.F
	}
	type k struct{ a, b int }
	memo := map[k]*Node{}
	var rec func(f, c *Node) *Node
	rec = func(f, c *Node) *Node {
		if c == bd.T || f.v < 0 {
			return f
		}
		if c == f {
			return bd.T
		}
		kk := k{f.id, c.id}
		if r, ok := memo[kk]; ok {
			return r
		}
		var r *Node
		if c.v >= 0 && c.v < f.v {
			r = rec(f, or(c.lo, c.hi))
		} else {
			f0, f1 := f.lo, f.hi
			c0, c1 := cof(c, f.v)
			switch {
			case c0 == bd.F:
				r = rec(f1, c1)
			case c1 == bd.F:
				r = rec(f0, c0)
			default:
				r = bd.mk(f.v, rec(f0, c0), rec(f1, c1))
			}
		}
		memo[kk] = r
		return r
	}
	return rec(f, c)
}

// exists quantifies away every variable whose atom satisfies pred.
func exists(f *Node, pred func(*Term) bool) *Node {
	memo := map[int]*Node{}
	var rec func(f *Node) *Node
	rec = func(f *Node) *Node {
		if f.v < 0 {
			return f
		}
		if r, ok := memo[f.id]; ok {
			return r
		}
		lo, hi := rec(f.lo), rec(f.hi)
		var r *Node
		if pred(bd.vars[f.v]) {
			r = or(lo, hi)
		} else {
			r = bd.mk(f.v, lo, hi)
		}
		memo[f.id] = r
		return r
	}
	return rec(f)
}

type Lit struct {
	t   *Term
	pos bool
}

// support returns the atoms f depends on.
func support(f *Node) []*Term {
	seen := map[int]bool{}
	vs := map[int]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.v < 0 || seen[n.id] {
			return
		}
		seen[n.id] = true
		vs[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
	var out []*Term
	for i := range bd.vars {
		if vs[i] {
			out = append(out, bd.vars[i])
		}
	}
	return out
}

// satTheory looks for a cube of f that is consistent with the atom theory
// (theory.go). It returns nil, false when every cube is infeasible.
func satTheory(f *Node) ([]Lit, bool) {
	if f == bd.F {
		return nil, false
	}
	budget := 200000
	var lits []Lit
	var rec func(n *Node) bool
	rec = func(n *Node) bool {
		if n == bd.F {
			return false
		}
		budget--
		if budget < 0 {
			panic(undecided("too many guard combinations"))
		}
		if !consistent(lits) {
			return false
		}
		if n == bd.T {
			return true
		}
		t := bd.vars[n.v]
		for _, hi := range []bool{true, false} {
			ch := n.lo
			if hi {
				ch = n.hi
			}
			lits = append(lits, Lit{t, hi})
			if rec(ch) {
				return true
			}
			lits = lits[:len(lits)-1]
		}
		return false
	}
	if rec(f) {
		return append([]Lit{}, lits...), true
	}
	return nil, false
}

// entails: guard g implies fact h in the theory. On failure a witness is given.
func entails(g, h *Node) (bool, []Lit) {
	w, sat := satTheory(and(g, not(h)))
	return !sat, w
}

func equivTh(f, g, care *Node) (bool, []Lit) {
	w, sat := satTheory(and(care, xor(f, g)))
	return !sat, w
}

func unsat(f *Node) bool { _, s := satTheory(f); return !s }

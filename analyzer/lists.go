package main

// How a list was built: the appends (or element stores) that make up the
// final value of a slice.

import (
	"fmt"
	"go/token"
	"go/types"
)

type lpart struct {
	x   *Effect // the append, or the store of one element
	el  []*Term // appended elements
	val Val     // stored element (preallocated lists)
	idx *Term   // position of a stored element
	all *Term   // a whole slice appended
	app *Term   // the append term
}

func (e *Engine) phiBySym(t *Term) (*LoopInst, *PhiInfo) {
	for _, l := range e.loopByID {
		for _, p := range l.phis {
			if p.sym == t {
				return l, p
			}
		}
		for _, p := range l.mem {
			if p.sym == t {
				return l, p
			}
		}
	}
	return nil, nil
}

// fits: the append x of t belongs where t was met: inside the loop of stop,
// outside the loop whose final value it extends (the same term can be
// appended in a loop and once more after it).
func (e *Engine) fits(x *Effect, t, stop *Term) bool {
	if stop != nil {
		l, _ := e.phiBySym(stop)
		return l == nil || inLoop(x, l)
	}
	l, _ := e.phiBySym(t.args[0])
	return l == nil || !inLoop(x, l)
}

// buildOf lists the parts of list L, in order of construction; sz is the
// length of a preallocated list (nil: appended).
func (e *Engine) buildOf(L *Term) (parts []*lpart, sz *Term, why string) {
	var walk func(t, stop *Term, depth int) string
	walk = func(t, stop *Term, depth int) string {
		if depth > 40 {
			return "the list is built in too many steps"
		}
		if t == stop {
			return ""
		}
		if _, ok := e.emptyLists[t]; ok && stop == nil {
			e.emptyLists[t] = true
			return ""
		}
		switch t.op {
		case "nil":
			if stop != nil {
				return "the list is replaced"
			}
			return ""
		case "make":
			if stop != nil {
				return "the list is replaced"
			}
			if n, ok := t.args[0].intVal(); ok && n == 0 {
				return ""
			}
			sz = t.args[0]
			for _, x := range e.effects {
				if x.kind == "store" && x.addr != nil && x.addr.op == "index" && x.addr.args[0].op == "make" && x.addr.args[0].aux == t.aux {
					parts = append(parts, &lpart{x: x, val: x.val, idx: x.addr.args[1]})
				}
			}
			return ""
		case "slice":
			if n, ok := t.args[2].intVal(); ok && n == 0 && stop == nil {
				return ""
			}
		case "append", "appendall":
			if w := walk(t.args[0], stop, depth+1); w != "" {
				return w
			}
			q := &lpart{app: t}
			if t.op == "append" {
				q.el = t.args[1:]
			} else {
				q.all = t.args[1]
			}
			for _, x := range e.effects {
				if x.kind != "append" {
					continue
				}
				for _, a := range altsOf(x.val) {
					if a.t == t && (q.x == nil || e.fits(x, t, stop)) {
						q.x = x
					}
				}
			}
			if q.x == nil {
				return "an append was not found"
			}
			parts = append(parts, q)
			return ""
		}
		if _, ph := e.phiBySym(t); ph != nil {
			i := one(ph.init)
			if i == nil {
				return "the list starts with different values"
			}
			if w := walk(i, stop, depth+1); w != "" {
				return w
			}
			for _, a := range altsOf(ph.next) {
				if a.t == t {
					continue
				}
				if w := walk(a.t, t, depth+1); w != "" {
					return w
				}
			}
			return ""
		}
		return fmt.Sprintf("the list is %v", t)
	}
	why = walk(L, nil, 0)
	return
}

// sticky: g with what follows from an error that a loop carries along and stops
// at: nil behind the loop, it was nil before it.
func (e *Engine) sticky(g *Node) *Node {
	done := map[*Term]bool{}
	for more := true; more; {
		more = false
		for _, a := range support(g) {
			if a.op != "isnil" || done[a] {
				continue
			}
			done[a] = true
			l, ph := e.phiBySym(a.args[0])
			if l == nil || ph.init == nil {
				continue
			}
			if ok, _ := entails(l.back, bd.atom(a)); ok {
				g = and(g, or(not(bd.atom(a)), errIsNil(ph.init)))
				more = true
			}
		}
	}
	return g
}

// doneAt: at guard g the loop has run exactly n times.
func (e *Engine) doneAt(l *LoopInst, n Val, g, back *Node) (bool, string) {
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	g = e.sticky(g)
	if ok, cx := entails(g, asBool(e.binop(token.GEQ, sc(l.iv), n, I, B))); !ok {
		return false, "left early when " + cut(litsStr(cx), 300)
	}
	if ok, cx := entails(back, asBool(e.binop(token.LSS, sc(l.iv), n, I, B))); !ok {
		return false, "continued when " + cut(litsStr(cx), 300)
	}
	return true, ""
}

// grown: the length of a list that gets the same number of elements in every
// iteration of its loop (of an inner loop, in every iteration of the outer).
func (e *Engine) grown(s *Term) *Term {
	l, ph := e.phiBySym(s)
	if l == nil {
		return nil
	}
	i := one(ph.init)
	if i == nil {
		return nil
	}
	n0 := lenTerm(i)
	if n0.op == "len" && len(l.outer) > 0 {
		// the list goes on from the loop around this one
		if o, _ := e.phiBySym(i); o != nil && o != l && o == l.outer[len(l.outer)-1] {
			n0 = e.grown(i)
		}
	}
	if n0 == nil || n0.op == "len" {
		return nil
	}
	k := e.growth(l, ph, 0)
	if k == nil {
		return nil
	}
	return add(n0, mul(k, l.iv))
}

// growth: elements added to the list in one iteration.
func (e *Engine) growth(l *LoopInst, ph *PhiInfo, depth int) *Term {
	var k *Term
	if depth > 5 {
		return nil
	}
	for _, a := range altsOf(ph.next) {
		if unsat(and(l.back, a.g)) {
			continue
		}
		n, t := intTerm(0), a.t
		for t.op == "append" {
			n = add(n, intTerm(int64(len(t.args)-1)))
			t = t.args[0]
		}
		if t != ph.sym {
			in, pi := e.phiBySym(t)
			if in == nil || len(in.outer) == 0 || in.outer[len(in.outer)-1] != l || one(pi.init) != ph.sym {
				return nil
			}
			m, trips := e.growth(in, pi, depth+1), e.tripTerm(in, l.back)
			if m == nil || trips == nil {
				return nil
			}
			n = add(n, mul(m, trips))
		}
		if k != nil && k != n {
			return nil
		}
		k = n
	}
	return k
}

// tripTerm: the number of iterations of a counting loop that has run to its
// end at g.
func (e *Engine) tripTerm(l *LoopInst, g *Node) *Term {
	return e.tripAt(l, g, l.back)
}

// tripAt: the same, where only back of the rounds count.
func (e *Engine) tripAt(l *LoopInst, g, back *Node) *Term {
	for _, a := range support(back) {
		if a.op != "le0" {
			continue
		}
		co, rest, ok := linearIn(a.args[0], l.iv)
		if !ok {
			continue
		}
		n, isC := co.intVal()
		if !isC || n != 1 && n != -1 {
			continue
		}
		N := rest // stop at N - iv <= 0
		if n == 1 {
			N = sub(intTerm(1), rest) // go on while iv + rest <= 0
		}
		if e.mentions(l, N, nil) {
			continue
		}
		if ok, _ := e.doneAt(l, sc(N), g, back); ok {
			return N
		}
	}
	return nil
}

// lens rewrites the lengths of lists built in loops.
func (e *Engine) lens(g *Node) *Node {
	return newRewriter(func(t *Term) *Term {
		if t.op == "len" {
			return e.grown(t.args[0])
		}
		return nil
	}).node(g)
}

package main

// C09, C10: the walk through one tree, as a decision table. One iteration of
// the walk goes left or right; the condition is compared with the definition
// of the split.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	bitCat = iota
	bitDefaultLeft
	bitLeftLeaf
	bitRightLeaf
	bitMissingZero
	bitMissingNan
	bitOneHot
	bitSmall
)

type Walk struct {
	fn     *ssa.Function
	e      *Engine
	tree   *Term
	fvals  *Term
	node   *Term // address of the current node
	loop   *LoopInst
	cur    *Term // loop-carried position
	nodes  *Term // the tree's node slice
	leaves *Term
	empty  *Node
	inside *Node // the position is a node of the tree
	leafL  *Node // the walk ends in the left leaf
	leafR  *Node
	goL    *Node // the walk goes on to the left child
	goR    *Node
	fv     *Term // feature value looked at
	flags  *Term
	thr    *Term
	pos    token.Pos
	flag   *PhiInfo // variable that ends the walk when it is set
	fneg   bool     // it goes on while it is set
	floop  *LoopInst
}

// first: g inside the walk, where the flag has not ended it.
func (w *Walk) first(g *Node) *Node {
	v := bd.F
	if w.fneg {
		v = bd.T
	}
	at := bd.atom(w.flag.sym)
	if v == bd.F {
		at = not(at)
	}
	return exists(and(g, at), func(t *Term) bool { return t == w.flag.sym })
}

// flagNext: the walk ends after this step.
func (w *Walk) flagNext() *Node {
	n := w.first(asBool(w.flag.next))
	if w.fneg {
		n = w.first(not(asBool(w.flag.next)))
	}
	return n
}

// lastStep: t is a position that a loop carries, returned when a flag that
// the loop carries too says so: what it was set to in the last step.
func (w *Walk) lastStep(t *Term, g *Node) []Alt {
	for _, l := range w.e.loopByID {
		var pos *PhiInfo
		for _, q := range l.phis {
			if q.sym == t && t != nil {
				pos = q
			}
		}
		if pos == nil {
			continue
		}
		for _, q := range l.phis {
			init, isB := q.init.(BoolVal)
			if q.sym == nil || !isB {
				continue
			}
			up, _ := entails(g, bd.atom(q.sym))
			down, _ := entails(g, not(bd.atom(q.sym)))
			switch {
			case up && init.n == bd.F:
				w.fneg = false
			case down && init.n == bd.T:
				w.fneg = true
			default:
				continue
			}
			if w.flag != nil && w.flag != q {
				panic(undecided("two flags end the tree walk"))
			}
			w.flag, w.floop = q, l
			var out []Alt
			for _, a := range altsOf(pos.next) {
				gn := and(w.first(and(a.g, l.back)), w.flagNext())
				if !unsat(gn) {
					out = append(out, Alt{gn, a.t})
				}
			}
			return out
		}
	}
	return nil
}

func (w *Walk) left() *Node  { return or(w.leafL, w.goL) }
func (w *Walk) right() *Node { return or(w.leafR, w.goR) }

func stripConv(t *Term) *Term {
	for t.op == "conv" && isInt(t.typ) && isInt(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// nodeField: t is field name of a node; returns the node's address.
func (p *Program) nodeField(t *Term) (node *Term, name string) {
	t = stripConv(t)
	if t.op != "load" || t.args[0].op != "field" {
		return nil, ""
	}
	a := t.args[0]
	pt, ok := a.args[0].typ.(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), p.typ("", "lgNode")) {
		return nil, ""
	}
	return a.args[0], a.aux
}

func (p *Program) walk(c *Ctx) *Walk {
	fn := p.fn("", "lgTree.predict")
	e := p.engine()
	ps := e.symParams(fn)
	w := &Walk{fn: fn, e: e, tree: one(ps[0]), pos: fn.Pos()}
	for i, q := range fn.Params {
		if sl, ok := q.Type().(*types.Slice); ok && isFloat(sl.Elem()) {
			w.fvals = one(ps[i])
		}
	}
	st := newState()
	_, _, _, rets := e.Run(fn, ps, bd.T, st)
	lt := structOf(p.typ("", "lgTree"))
	field := func(elem func(types.Type) bool) *Term {
		for i := 0; i < lt.NumFields(); i++ {
			f := lt.Field(i)
			if sl, ok := f.Type().(*types.Slice); ok && elem(sl.Elem()) {
				return one(e.loadVal(newState(), fieldAddr(w.tree, f.Name(), f.Type()), f.Type()))
			}
		}
		return nil
	}
	w.nodes = field(func(t types.Type) bool { return types.Identical(t, p.typ("", "lgNode")) })
	w.leaves = field(isFloat)
	if w.nodes == nil || w.leaves == nil {
		panic(undecided("the tree's lists of nodes and leaf values"))
	}
	w.empty = eq0(polyOf(lenTerm(w.nodes)))
	w.leafL, w.leafR, w.goL, w.goR = bd.F, bd.F, bd.F, bd.F
	// ends of the walk
	for _, rt := range rets {
		tv, ok := rt.val.(*TupleVal)
		if !ok || len(tv.v) != 2 {
			panic(undecided("results of the tree walk"))
		}
		for _, ia := range altsOf(tv.v[1]) {
			for _, va := range altsOf(tv.v[0]) {
				g := and(rt.g, ia.g, va.g)
				if unsat(g) {
					continue
				}
				// the value is that of the leaf returned
				v := va.t
				good := v.op == "load" && v.args[0].op == "index" && v.args[0].args[0] == w.leaves && stripConv(v.args[0].args[1]) == stripConv(ia.t)
				if !good && v.op == "load" && v.args[0].op == "index" && v.args[0].args[0] == w.leaves {
					good, _ = eqUnderOK(v.args[0].args[1], ia.t, g)
				}
				if k, isC := ia.t.intVal(); isC {
					z, _ := entails(g, w.empty)
					c.must(good && k == 0 && z, "leaf", fn, rt.pos, "the walk ends in leaf %d without having reached it @@value %v when %s", k, v, first(g))
					continue
				}
				var node *Term
				name := ""
				for _, s := range w.lastStep(stripConv(ia.t), g) {
					n, nm := p.nodeField(s.t)
					if n == nil || node != nil && n != node {
						node = nil
						break
					}
					node = n
					c.must(good, "leaf", fn, rt.pos, "the value returned is not that of the leaf returned @@%v for leaf %v", v, ia.t)
					switch nm {
					case "Left":
						w.leafL = or(w.leafL, s.g)
					case "Right":
						w.leafR = or(w.leafR, s.g)
					default:
						c.must(false, "leaf", fn, rt.pos, "the leaf number returned is node field %s", nm)
					}
				}
				if node != nil {
					if w.node != nil && w.node != node {
						panic(undecided("the walk looks at two nodes at a time"))
					}
					w.node = node
					continue
				}
				w.flag = nil
				node, name = p.nodeField(ia.t)
				if node == nil {
					c.must(false, "leaf", fn, rt.pos, "the leaf number returned is not the child of the node reached @@%v", ia.t)
					continue
				}
				c.must(good, "leaf", fn, rt.pos, "the value returned is not that of the leaf returned @@%v for leaf %v", v, ia.t)
				if w.node != nil && w.node != node {
					panic(undecided("the walk looks at two nodes at a time"))
				}
				w.node = node
				switch name {
				case "Left":
					w.leafL = or(w.leafL, g)
				case "Right":
					w.leafR = or(w.leafR, g)
				default:
					c.must(false, "leaf", fn, rt.pos, "the leaf number returned is node field %s", name)
				}
			}
		}
	}
	if w.node == nil {
		panic(undecided("the walk never reaches a leaf"))
	}
	var carried *PhiInfo
	for _, l := range e.loopByID {
		for _, q := range append(append([]*PhiInfo{}, l.phis...), l.mem...) {
			if q.sym != nil && occurs(w.node, q.sym) {
				if carried != nil {
					panic(undecided("the position in the tree depends on two loop variables"))
				}
				carried, w.loop = q, l
			}
		}
	}
	if carried == nil {
		panic(undecided("the position in the tree is not carried by a loop"))
	}
	w.cur = carried.sym
	idxOf := func(t *Term) *Term { // node number of a position
		if w.cur.typ != nil {
			if _, ok := w.cur.typ.(*types.Pointer); ok {
				if t.op == "index" && t.args[0] == w.nodes {
					return stripConv(t.args[1])
				}
				return nil
			}
		}
		return stripConv(t)
	}
	w.inside = not(w.empty)
	if w.node.op == "index" && w.node.args[0] == w.nodes {
		w.inside = and(w.inside, le0(polyOf(sub(add(w.node.args[1], intTerm(1)), lenTerm(w.nodes)))))
	} else if w.node != w.cur {
		panic(undecided("the current node is not an element of the tree's nodes"))
	}
	for _, a := range altsOf(carried.init) {
		z := idxOf(a.t)
		k, isC := int64(1), false
		if z != nil {
			k, isC = z.intVal()
		}
		c.must(isC && k == 0, "start", fn, fn.Pos(), "the walk does not start at the first node @@%v", a.t)
	}
	for _, a := range altsOf(carried.next) {
		g := and(a.g, w.loop.back)
		if w.flag != nil {
			g = and(w.first(g), not(w.flagNext()))
		}
		if unsat(g) {
			continue
		}
		t := idxOf(a.t)
		if t == nil {
			c.must(false, "step", fn, fn.Pos(), "the next node is not an element of the tree's nodes @@%v", a.t)
			continue
		}
		node, name := p.nodeField(t)
		switch {
		case node == w.node && name == "Left":
			w.goL = or(w.goL, g)
		case node == w.node && name == "Right":
			w.goR = or(w.goR, g)
		case w.node.op == "index" && polyTerm(polyOf(sub(t, add(stripConv(w.node.args[1]), intTerm(1)))), types.Typ[types.Int]) == intTerm(0):
			w.goR = or(w.goR, g)
		default:
			c.must(false, "step", fn, fn.Pos(), "the next node is not a child of the node reached @@%v", a.t)
		}
	}
	// the feature value and the node's fields
	nf := structOf(p.typ("", "lgNode"))
	get := func(name string) *Term {
		for i := 0; i < nf.NumFields(); i++ {
			if f := nf.Field(i); f.Name() == name {
				return one(e.loadVal(newState(), fieldAddr(w.node, name, f.Type()), f.Type()))
			}
		}
		panic(undecided("node field " + name))
	}
	w.flags, w.thr = get("Flags"), get("Threshold")
	all := or(w.left(), w.right())
	seen := map[*Term]bool{}
	for _, a := range append(support(w.left()), support(w.right())...) {
		findSub(a, func(t *Term) bool {
			if t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == w.fvals && !seen[t] {
				seen[t] = true
				node, name := p.nodeField(t.args[0].args[1])
				c.must(node == w.node && name != "Left" && name != "Right" && name != "Flags", "feature", fn, fn.Pos(), "a decision depends on a value that is not the split's feature @@%v", t)
				if w.fv != nil && w.fv != t {
					panic(undecided("a decision depends on two feature values"))
				}
				w.fv = t
			}
			return false
		})
	}
	if w.fv == nil {
		panic(undecided("decisions do not depend on a feature value"))
	}
	// the walk always goes on, to one side
	live := and(w.inside, not(w.empty))
	bad := and(live, not(all))
	c.must(unsat(bad), "step", fn, fn.Pos(), "at a node the walk neither ends nor goes on @@when %s", first(bad))
	bad = and(w.left(), w.right())
	c.must(unsat(bad), "step", fn, fn.Pos(), "at a node the walk goes both ways @@when %s", first(bad))
	// a leaf bit ends the walk, no leaf bit continues it
	for _, s := range []struct {
		what string
		g    *Node
		bit  int
		want bool
	}{{"the walk ends in the left child although it is a node", w.leafL, bitLeftLeaf, true}, {"the walk ends in the right child although it is a node", w.leafR, bitRightLeaf, true}, {"the walk goes on to the left child although it is a leaf", w.goL, bitLeftLeaf, false}, {"the walk goes on to the right child although it is a leaf", w.goR, bitRightLeaf, false}} {
		b := bitOf(w.flags, s.bit)
		if s.want {
			b = not(b)
		}
		bad := and(s.g, b)
		c.must(!unsat(s.g), "step", fn, fn.Pos(), "never happens: %s", s.what)
		c.must(unsat(bad), "step", fn, fn.Pos(), "%s @@when %s", s.what, first(bad))
	}
	return w
}

func eqUnderOK(a, b *Term, g *Node) (bool, []Lit) {
	return entails(g, eq0(polyOf(sub(stripConv(a), stripConv(b)))))
}

func (w *Walk) bit(k int) *Node { return bitOf(w.flags, k) }

// C09
func ruleNumerical(p *Program, c *Ctx) {
	w := p.walk(c)
	nan, mn, mz, dl := isNaN(w.fv), w.bit(bitMissingNan), w.bit(bitMissingZero), w.bit(bitDefaultLeft)
	e := floatTerm(1e-35)
	me := floatTerm(-1e-35)
	zero := floatTerm(0)
	small := and(fltCmp("<", me, w.fv), fltCmp("<=", w.fv, e))
	care := and(or(w.left(), w.right()), not(w.bit(bitCat)), not(and(mn, mz)), not(isNaN(w.thr)))
	cases := []struct {
		what string
		g    *Node
		left *Node
	}{
		{"a NaN at a split that treats NaN as missing does not follow the default direction", and(nan, mn), dl},
		{"a NaN at a split that treats zero as missing does not follow the default direction", and(nan, mz, not(mn)), dl},
		{"a NaN at a split without missing values does not count as zero", and(nan, not(mn), not(mz)), fltCmp("<=", zero, w.thr)},
		{"a zero at a split that treats zero as missing does not follow the default direction", and(not(nan), mz, small), dl},
		{"a value that is not missing does not go left exactly if it is at most the threshold", and(not(nan), not(and(mz, small))), fltCmp("<=", w.fv, w.thr)},
	}
	for _, k := range cases {
		g := and(care, k.g)
		if !c.must(!unsat(g), "reached", w.fn, w.pos, "no path for this case: %s", k.what) {
			continue
		}
		ok, cx := equivTh(w.left(), k.left, g)
		c.must(ok, "numerical", w.fn, w.pos, "%s @@when %s", k.what, cut(litsStr(cx), 400))
	}
	c.floor("numerical", 5)
}

// catLists: the fields of a tree with the boundaries and the words of the
// large category sets, as evaluation uses them.
func (p *Program) catLists() (bounds, words string) {
	if p.catBounds == "" {
		c := newCtx(p, "C10", "quick")
		c.guarded("categorical", nil, func() { ruleCategorical(p, c) })
	}
	if p.catBounds == "" {
		panic(undecided("the category sets of a tree"))
	}
	return p.catBounds, p.catWords
}

// C10
func ruleCategorical(p *Program, c *Ctx) {
	w := p.walk(c)
	I := types.Typ[types.Int]
	nan, mn := isNaN(w.fv), w.bit(bitMissingNan)
	care := and(or(w.left(), w.right()), w.bit(bitCat), not(and(w.bit(bitOneHot), w.bit(bitSmall))))
	// the integer part of the value, whatever the width
	fromFloat := func(t, of *Term) bool {
		return t.op == "conv" && isInt(t.typ) && t.args[0] == of
	}
	sym := mkTerm("sym", "category", I)
	r1 := newRewriter(func(t *Term) *Term {
		if fromFloat(t, w.fv) && !isUnsigned(t.typ) {
			return sym
		}
		return nil
	})
	neg := le0(polyOf(add(sym, intTerm(1))))
	bad := and(r1.node(and(care, w.left())), neg, not(nan))
	c.must(unsat(bad), "categorical", w.fn, w.pos, "a negative value does not go right @@when %s", first(bad))
	bad = and(care, w.left(), nan, mn)
	c.must(unsat(bad), "categorical", w.fn, w.pos, "a NaN at a split that treats NaN as missing does not go right @@when %s", first(bad))
	// from here the value is not negative
	U := mkTerm("sym", "category#", types.Typ[types.Uint32])
	TH := mkTerm("sym", "threshold#", types.Typ[types.Uint32])
	r2 := newRewriter(func(t *Term) *Term {
		if fromFloat(t, w.fv) {
			return U
		}
		if fromFloat(t, w.thr) {
			return TH
		}
		if t.op == "wrap" {
			return t.args[0]
		}
		if t.op == "conv" && isInt(t.typ) && isInt(t.args[0].typ) {
			return t.args[0]
		}
		return nil
	})
	left := r2.node(w.left())
	pos := and(r2.node(care), not(nan), not(le0(polyOf(add(U, intTerm(1))))), not(le0(polyOf(add(TH, intTerm(1))))))
	one5 := shrTerm(U, intTerm(5), types.Typ[types.Uint32])
	low := bitop("and", types.Typ[types.Uint32], U, intTerm(31))
	cmp := func(what string, g, spec *Node) {
		g = and(g, pos)
		if !c.must(!unsat(g), "reached", w.fn, w.pos, "no path for this case: %s", what) {
			return
		}
		ok, cx := equivTh(left, spec, g)
		c.must(ok, "categorical", w.fn, w.pos, "%s @@when %s", what, cut(litsStr(cx), 400))
	}
	cmp("a split on a single category does not send exactly that category left", w.bit(bitOneHot), eq0(polyOf(sub(TH, U))))
	small := and(not(w.bit(bitOneHot)), w.bit(bitSmall))
	cmp("a category below 32 does not go left exactly if its bit of the small set is set", and(small, le0(polyOf(sub(U, intTerm(31))))), bitOf(shrTerm(TH, U, types.Typ[types.Uint32]), 0))
	cmp("a category above 31 does not go right of a small set", and(small, not(le0(polyOf(sub(U, intTerm(31)))))), bd.F)
	// large sets: words between two boundaries
	big := and(not(w.bit(bitOneHot)), not(w.bit(bitSmall)))
	var lists []*Term
	names := map[*Term]string{}
	lt := structOf(p.typ("", "lgTree"))
	for i := 0; i < lt.NumFields(); i++ {
		f := lt.Field(i)
		if sl, ok := f.Type().(*types.Slice); ok && isInt(sl.Elem()) {
			l := one(w.e.loadVal(newState(), fieldAddr(w.tree, f.Name(), f.Type()), f.Type()))
			lists = append(lists, l)
			names[l] = f.Name()
		}
	}
	elem := func(l, i *Term) *Term {
		et := l.typ.(*types.Slice).Elem()
		a := indexAddr(l, i, et)
		v := one(w.e.loadVal(newState(), a, et))
		if v == nil {
			panic(undecided("element of " + l.String()))
		}
		return v
	}
	var okBig bool
	var cx []Lit
	for _, b := range lists {
		for _, wd := range lists {
			if b == wd || okBig {
				continue
			}
			s, e := elem(b, TH), elem(b, add(TH, intTerm(1)))
			spec := and(le0(polyOf(add(sub(one5, sub(e, s)), intTerm(1)))), bitOf(shrTerm(elem(wd, add(s, one5)), low, types.Typ[types.Uint32]), 0))
			g := and(pos, big, le0(polyOf(sub(s, e))))
			// a right shift by a full word yields nothing, whatever is tested first
			var ok bool
			ok, x := equivTh(left, spec, g)
			if ok {
				okBig = true
				p.catBounds, p.catWords = names[b], names[wd]
			} else if cx == nil {
				cx = x
			}
		}
	}
	c.must(okBig, "categorical", w.fn, w.pos, "a large set does not send exactly the categories left whose bit is set in its words @@when %s", cut(litsStr(cx), 600))
	c.floor("categorical", 6)
}

func init() {
	reg("C09", ruleNumerical, "The tree walk is evaluated symbolically; one iteration is a decision table from node fields and the feature value to (left leaf, right leaf, left child, right child). Rule: the table's left condition is equivalent to the definition in each of the five cases of value and missing type; the leaf returned is the child of the node reached and carries its value; the walk starts at the first node and every iteration ends or steps to a child.", "thresholds are not NaN and a node does not treat both NaN and zero as missing (established on loading)", asmInts)
	reg("C10", ruleCategorical, "As C09, for categorical nodes: the left condition is equivalent to set membership for each of the three stored forms; negative values, NaN where missing and categories beyond the set go right.", "the integer part of the value and the threshold fit 31 bits", "int32(NaN) at a split without NaN handling is left open", asmInts)
}

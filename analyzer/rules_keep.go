package main

// C11 (loaders): every tree of the file is converted once and kept in the
// file's order; base score and weights are the file's.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// widen drops conversions that lose nothing.
func widen(t *Term) *Term {
	for t != nil && t.op == "conv" && isFloat(t.typ) && isFloat(t.args[0].typ) {
		if b := basic(t.typ); b != nil && b.Kind() == types.Float64 {
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

// source: the tree of the file a converter is given; nil when it reads from
// the input directly.
func (r *LRun) source(call *Effect, list string) (idx *idxAlts, why string) {
	base := symOf(list, nil)
	var gs []*Node
	var vs []Val
	var walk func(g *Node, v Val)
	leaf := func(g *Node, t *Term) {
		var at *Term
		findSub(t, func(x *Term) bool {
			if x.op == "index" && x.args[0] == base {
				if at != nil && at != x.args[1] {
					why = "different trees are mixed"
				}
				at = x.args[1]
			}
			return false
		})
		if at != nil {
			gs, vs = append(gs, g), append(vs, sc(at))
		}
	}
	walk = func(g *Node, v Val) {
		switch x := v.(type) {
		case *StructVal:
			for _, f := range x.f {
				walk(g, f)
			}
		case *Scalar:
			for _, al := range x.alts {
				leaf(and(g, r.node(al.g)), r.term(al.t))
			}
		}
	}
	for _, a := range call.args {
		walk(bd.T, a)
	}
	if len(vs) == 0 && why == "" {
		return nil, "the converter is not given a tree of the file"
	}
	return &idxAlts{gs, vs}, why
}

// idxAlts: positions, each under its guard.
type idxAlts struct {
	gs []*Node
	vs []Val
}

// position of the part's element in its list, and the total number.
func (r *LRun) placeOf(q *lpart, sz *Term, g *Node) (pos, total Val, why string) {
	I := types.Typ[types.Int]
	ls := q.x.loops
	if len(ls) == 0 || len(ls) > 2 {
		return nil, nil, "trees are not added in a loop over them"
	}
	var trips []Val
	for k, l := range ls {
		outer := g
		if k > 0 {
			outer = r.node(ls[k-1].back)
		}
		var T Val
		cands := append(r.treeCounts(), r.groups())
		if sz != nil {
			cands = append(cands, sc(sz))
		}
		for _, c := range cands {
			if ok, _ := r.e.doneAt(l, c, outer, r.node(l.back)); ok {
				T = c
				break
			}
		}
		if T == nil {
			return nil, nil, "the number of iterations is not known"
		}
		trips = append(trips, T)
	}
	pos, total = sc(ls[0].iv), trips[0]
	if len(ls) == 2 {
		pos = r.e.binop(token.ADD, r.e.binop(token.MUL, pos, trips[1], I, I), sc(ls[1].iv), I, I)
		total = r.e.binop(token.MUL, total, trips[1], I, I)
	}
	if q.idx != nil {
		return sc(r.term(q.idx)), total, ""
	}
	return pos, total, ""
}

// eachTree: one element is added in every iteration.
func (r *LRun) eachTree(q *lpart) (bool, string) {
	in := q.x.loops[len(q.x.loops)-1]
	ok, cx := entails(r.node(in.back), r.node(q.x.guard))
	return ok, litsStr(cx)
}

func ruleKeep(p *Program, c *Ctx) {
	I := types.Typ[types.Int]
	lists := map[string]string{"json": "J.tree_info", "gbtree": "M.Trees", "sklearn": "K.Estimators"}
	p.eachLoader(c, "kept", func(r *LRun, ok, bad []lret) {
		for _, s := range ok {
			pos := s.q.pos
			switch r.kind {
			case "gblinear":
				r.scalars(c, s, "L.Weights")
				continue
			case "gbtree":
				r.scalars(c, s, "")
			}
			part, call, why := r.trees(s.q)
			if !c.must(part != nil, "kept", r.f, pos, "how trees are added @@%s", why) {
				continue
			}
			L := one(r.fieldVal(s.q, r.p.isTreeList))
			_, sz, _ := r.e.buildOf(L)
			if sz != nil {
				sz = r.term(sz)
			}
			at, total, why := r.placeOf(part, sz, s.g)
			if !c.must(why == "", "kept", r.f, part.x.pos, "whether every tree is kept @@%s", why) {
				continue
			}
			okE, cx := r.eachTree(part)
			c.must(okE, "kept", r.f, part.x.pos, "a tree can be left out @@when %s", cut(cx, 300))
			T := r.treeCounts()[0]
			if r.kind == "text" {
				if t := r.tripOf(part, s.g); t != nil {
					T = t
				}
			}
			c.imply(s.g, r.cmp(token.EQL, total, T), "kept", r.f, part.x.pos, "the number of trees kept is not the number in the file")
			if sz != nil {
				c.imply(s.g, r.cmp(token.EQL, sc(sz), T), "kept", r.f, part.x.pos, "the list of trees is longer than the number in the file")
			}
			if l := lists[r.kind]; l != "" {
				idx, why := r.source(call, l)
				if c.must(why == "", "kept", r.f, call.pos, "which tree is converted @@%s", why) {
					for k, v := range idx.vs {
						if t := one(v); t != nil && okE && part.app != nil && part.idx == nil && t == r.term(lenTerm(part.app.args[0])) {
							continue // the number of trees so far
						}
						c.imply(and(r.node(part.x.guard), idx.gs[k]), r.cmp(token.EQL, v, at), "kept", r.f, call.pos, "a tree is kept at another position than in the file")
					}
				}
			} else {
				// trees follow each other in the input
				var rd, rd2 *Term
				if x := r.srcs["P"]; len(x.args) > 0 {
					rd = pick(call.guard, x.args[0])
				}
				if len(call.args) > 0 {
					rd2 = pick(call.guard, call.args[0])
				}
				c.must(rd != nil && rd == rd2, "kept", r.f, call.pos, "a tree is not read from where the header ends @@%v %v", rd, rd2)
				if part.idx != nil {
					c.imply(r.node(part.x.guard), r.cmp(token.EQL, at, sc(part.x.loops[len(part.x.loops)-1].iv)), "kept", r.f, call.pos, "a tree is kept at another position than in the file")
				}
			}
			r.noChange(c, part)
			if r.kind == "sklearn" {
				r.scaled(c, part, call, s)
			}
		}
	})
	_ = I
	c.floor("kept", 60)
}

// noChange: kept trees are not modified.
func (r *LRun) noChange(c *Ctx, part *lpart) {
	lt, nt := r.p.typ("", "lgTree"), r.p.typ("", "lgNode")
	for _, x := range r.e.effects {
		if x.kind != "store" || x.addr == nil || x == part.x {
			continue
		}
		for a := x.addr; a.op == "index" || a.op == "field"; a = a.args[0] {
			pt, ok := a.typ.Underlying().(*types.Pointer)
			if !ok || a.op != "index" {
				continue
			}
			if types.Identical(pt.Elem(), lt) || types.Identical(pt.Elem(), nt) {
				if rootOf(a).op == "alloc" && a.args[0] == rootOf(a) {
					continue // the list of arguments of an append
				}
				c.must(false, "kept", r.f, x.pos, "a tree is changed after it was converted")
			}
		}
	}
}

// scalars: base score, dropout weights and linear weights.
func (r *LRun) scalars(c *Ctx, s lret, weights string) {
	base := one(r.fieldVal(s.q, func(t types.Type) bool { return isFloat(t) }))
	c.must(base != nil && widen(r.term(base)) == symOf("H.Param.BaseScore", nil), "kept", r.f, s.q.pos, "the base score is not that of the file @@%v", base)
	LL0 := r.fieldVal(s.q, func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && isFloat(sl.Elem())
	})
	LL := one(LL0)
	if weights != "" {
		L := LL
		if L == nil {
			panic(undecided("the weights of the model"))
		}
		why := r.listIs(L, s.g, sc(lenTerm(symOf(weights, nil))), nil, weights, newRewriter(func(*Term) *Term { return nil }))
		c.must(why == "", "kept", r.f, s.q.pos, "the weights are not those of the file @@%s", why)
		return
	}
	for _, n := range []string{"gbtree", "dart"} {
		w := r.subst("H.NameGbm", n)
		if LL = r.under(s.g, LL0, w); LL == nil {
			panic(undecided("the weights of the model"))
		}
		L := LL
		list, el := "W", (*Term)(nil)
		if n == "gbtree" {
			list, el = "", constFloat1()
		}
		why := r.listIs(L, w.node(s.g), r.treeCounts()[0], el, list, w)
		c.must(why == "", "kept", r.f, s.q.pos, "the tree weights of a %s model are wrong @@%s", n, why)
	}
}

// under: the only alternative of v possible under g with w applied.
func (r *LRun) under(g *Node, v Val, w *rewriter) *Term {
	var t *Term
	for _, a := range altsOf(v) {
		if _, sat := satTheory(w.node(r.node(and(g, a.g)))); !sat {
			continue
		}
		if t != nil && t != a.t {
			return nil
		}
		t = a.t
	}
	return t
}

func constFloat1() *Term { return floatTerm(1) }

// listIs: under g, list L has n elements, each el, or those of source src.
func (r *LRun) listIs(L *Term, g *Node, n Val, el *Term, src string, w *rewriter) string {
	cn := func(t *Term) *Term { return w.term(r.term(t)) }
	S := symOf(src, nil)
	if src != "" && cn(L) == S {
		return ""
	}
	parts, sz, why := r.e.buildOf(L)
	if why != "" {
		return why
	}
	var live []*lpart
	for _, q := range parts {
		x := w.node(r.node(q.x.guard))
		if _, sat := satTheory(and(stripLoops(r.e, q.x, x), stripLoops(r.e, q.x, g))); sat {
			live = append(live, q)
		}
	}
	if len(live) != 1 {
		return "the list is filled in several places or none"
	}
	q := live[0]
	if q.all != nil {
		if len(q.x.loops) == 0 && cn(q.all) == S && src != "" {
			return ""
		}
		return "another list is copied"
	}
	if len(q.x.loops) != 1 {
		return "the list is not filled in one loop"
	}
	l := q.x.loops[0]
	back := w.node(r.node(l.back))
	if ok, cx := entails(back, w.node(r.node(q.x.guard))); !ok {
		return "an element is left out when " + cut(litsStr(cx), 300)
	}
	done := false
	cands := []Val{n}
	if src != "" {
		cands = append(cands, sc(lenTerm(S)))
	}
	for _, k := range cands {
		var ok bool
		if ok, why = r.e.doneAt(l, k, g, back); ok {
			done = true
		}
	}
	if !done {
		return why
	}
	var v *Term
	if q.val != nil {
		v = one(q.val)
	} else if len(q.el) == 1 {
		v = q.el[0]
	}
	if v == nil {
		return "an element"
	}
	at := l.iv
	if q.idx != nil {
		at = cn(q.idx)
		if at != l.iv {
			return "an element is at another position"
		}
		if ok, cx := entails(g, r.cmp(token.EQL, sc(cn(sz)), n)); !ok {
			return "the list has another length when " + cut(litsStr(cx), 300)
		}
	}
	v = widen(cn(v))
	if src == "" {
		if v != el {
			return "an element is another value: " + v.String()
		}
		return ""
	}
	if v.op != "load" || v.args[0].op != "index" || v.args[0].args[0] != S || v.args[0].args[1] != at {
		return "an element is another value: " + v.String()
	}
	return ""
}

// stripLoops removes what depends on the iteration.
func stripLoops(e *Engine, x *Effect, g *Node) *Node {
	for _, l := range x.loops {
		g = exists(g, func(t *Term) bool { return e.mentions(l, t, nil) })
	}
	return g
}

// scaled: scikit-learn trees get the learning rate, those of the first
// estimator the initial estimate of their output.
func (r *LRun) scaled(c *Ctx, part *lpart, call *Effect, s lret) {
	var fl []Val
	for i, a := range call.args {
		if i < len(call.fn.Params) && isFloat(call.fn.Params[i].Type()) {
			fl = append(fl, a)
		}
	}
	if !c.must(len(fl) == 2, "kept", r.f, call.pos, "scale and base of a tree") {
		return
	}
	rate := symOf("K.LearningRate", nil)
	k := -1
	for i, a := range fl {
		if t := pick(call.guard, a); t != nil && r.term(t) == rate {
			k = i
		}
	}
	if !c.must(k >= 0, "kept", r.f, call.pos, "leaves are not scaled by the learning rate") {
		return
	}
	// which parameter of the converter is the scale is decided there
	want := r.p.scaleParam(call.fn)
	c.must(want == k, "kept", r.f, call.pos, "learning rate and initial estimate are swapped")
	base := fl[1-k]
	ls := part.x.loops
	var out Val     // output of the tree
	var first *Node // it is one of the first estimator
	I := types.Typ[types.Int]
	switch len(ls) {
	case 2:
		out = sc(ls[1].iv)
		first = r.cmp(token.EQL, sc(ls[0].iv), sc(intTerm(0)))
	case 1:
		var gs []*Node
		var vs []Val
		for _, a := range altsOf(r.groups()) {
			gs = append(gs, a.g)
			vs = append(vs, sc(remTerm(ls[0].iv, a.t, I)))
		}
		out = mergeVals(gs, vs)
		first = r.cmp(token.LSS, sc(ls[0].iv), r.groups())
		// the number of the estimator, when it is computed
		for _, a := range altsOf(r.groups()) {
			d := r.cmp(token.EQL, sc(divTerm(ls[0].iv, a.t, I)), sc(intTerm(0)))
			r.facts = append(r.facts, implies(a.g, or(and(first, d), and(not(first), not(d)))))
		}
	default:
		panic(undecided("the loops over the trees"))
	}
	prior := symOf("K.InitEstimator.Prior", nil)
	for _, nm := range []string{"LogOddsEstimator", "PriorProbabilityEstimator"} {
		w := r.subst("K.InitEstimator.Name", nm)
		g := w.node(r.node(call.guard))
		j := out
		if nm == "LogOddsEstimator" {
			j = sc(intTerm(0))
		}
		live := 0
		for _, a := range altsOf(base) {
			ga := and(g, w.node(r.node(a.g)))
			for _, q := range r.facts {
				ga = and(ga, w.node(q))
			}
			if _, sat := satTheory(ga); !sat {
				continue
			}
			live++
			t := w.term(r.term(a.t))
			// a value that depends on the estimator only
			if t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == prior && !r.changed(a.t.args[0]) {
				c.imply(ga, r.at(t.args[0].args[1], j, first, ls, ga), "kept", r.f, call.pos, "the initial estimate is that of another output ("+nm+")")
				c.imply(ga, first, "kept", r.f, call.pos, "the initial estimate is added to later estimators too ("+nm+")")
				continue
			}
			if v, isC := t.floatVal(); isC && v == 0 {
				c.imply(ga, not(first), "kept", r.f, call.pos, "the initial estimate is not added ("+nm+")")
				continue
			}
			// an element of a list that is set before and zeroed after the
			// first estimator
			why := r.resetList(a.t, ga, w, prior, nm == "LogOddsEstimator", out, first, part, call)
			c.must(why == "", "kept", r.f, call.pos, "the initial estimate of a tree (%s) @@%s", nm, why)
		}
		c.must(live > 0, "kept", r.f, call.pos, "no model with %s can be loaded", nm)
	}
}

// at: idx is position j (for trees of the first estimator, the number of the
// tree is its position).
func (r *LRun) at(idx *Term, j Val, first *Node, ls []*LoopInst, g *Node) *Node {
	ok := r.cmp(token.EQL, sc(idx), j)
	if len(ls) == 1 {
		if imp, _ := entails(g, first); imp && one(j) != intTerm(0) {
			ok = or(ok, r.cmp(token.EQL, sc(idx), sc(ls[0].iv)))
		}
	}
	return ok
}

// changed: some store may change the memory behind the address.
func (r *LRun) changed(a *Term) bool {
	for _, x := range r.e.effects {
		if x.kind == "store" && x.addr != nil && x.addr.op == "index" && a.op == "index" && x.addr.args[0] == a.args[0] {
			return true
		}
	}
	return false
}

func (r *LRun) resetList(v *Term, g *Node, w *rewriter, prior *Term, one0 bool, out Val, first *Node, part *lpart, call *Effect) string {
	if v.op != "load" || v.args[0].op != "index" {
		return "it is " + v.String()
	}
	a := v.args[0]
	L := a.args[0]
	ls := part.x.loops
	if ok, cx := entails(g, r.at(r.term(a.args[1]), out, first, ls, g)); !ok {
		return "it is that of another output when " + cut(litsStr(cx), 300)
	}
	onlyFirst, _ := entails(g, first)
	cn := func(t *Term) *Term { return w.term(r.term(t)) }
	est := ls[0]
	I := types.Typ[types.Float64]
	// what is set before the loop over the estimators
	seen := -1
	for i, x := range r.e.effects {
		if x == call {
			seen = i
		}
	}
	init := 0
	reset := false
	for i, x := range r.e.effects {
		if x.kind != "store" || x.addr == nil {
			continue
		}
		hit := x.addr.op == "index" && x.addr.args[0] == L
		if !hit {
			continue
		}
		if _, sat := satTheory(and(stripLoops(r.e, x, w.node(r.node(x.guard))), stripLoops(r.e, call, stripLoops(r.e, x, g)))); !sat {
			continue
		}
		inEst := false
		for _, l := range x.loops {
			inEst = inEst || l == est
		}
		val := pick(x.guard, x.val)
		if val == nil {
			return "the value set"
		}
		val = cn(val)
		if !inEst {
			if i > seen || len(x.loops) != 1 {
				return "the initial estimate is set in another place"
			}
			l := x.loops[0]
			if r.term(x.addr.args[1]) != l.iv {
				return "the initial estimate is set at another position"
			}
			el := indexAddr(prior, l.iv, I)
			if one0 {
				el = indexAddr(prior, intTerm(0), I)
			}
			if !(val.op == "load" && val.args[0] == el) {
				return "the initial estimate is set to " + val.String()
			}
			if why := r.covers(l, x, L, w, w.node(r.node(est.entry))); why != "" {
				return why
			}
			init++
			continue
		}
		if len(ls) != 2 {
			return "trees are not added by estimator and output"
		}
		if z, isC := val.floatVal(); !isC || z != 0 {
			return "the estimate is changed to " + val.String()
		}
		if i < seen {
			return "the estimate is reset before it is used"
		}
		if len(x.loops) != 2 || x.loops[0] != est {
			return "the estimate is reset in another place"
		}
		l := x.loops[1]
		if l == part.x.loops[1] {
			// reset right after its own use
			if r.term(x.addr.args[1]) != one(out) {
				return "another output's estimate is reset"
			}
			if ok, cx := entails(w.node(r.node(l.back)), w.node(r.node(x.guard))); !ok {
				return "the estimate is not reset when " + cut(litsStr(cx), 200)
			}
			reset = true
			continue
		}
		if r.term(x.addr.args[1]) != l.iv {
			return "the estimate is reset at another position"
		}
		if why := r.covers(l, x, L, w, w.node(r.node(est.back))); why != "" {
			return why
		}
		reset = true
	}
	if !reset && !onlyFirst {
		return "it is never reset after the first estimator"
	}
	if cn(L) == prior {
		if init == 0 && !one0 {
			return ""
		}
		return "the priors are changed before they are used"
	}
	if init == 0 {
		if L.op == "make" || L.op == "appendall" {
			// copied as a whole
			if L.op == "appendall" && cn(L.args[1]) == prior && !one0 {
				return ""
			}
			for _, x := range r.e.effects {
				if x.kind == "copy" && x.addr == L && cn(one(x.args[1])) == prior && !one0 {
					return ""
				}
			}
		}
		return "it is never set"
	}
	if init != 1 {
		return "the initial estimate is set more than once"
	}
	return ""
}

// covers: the store runs for every output in its loop.
func (r *LRun) covers(l *LoopInst, x *Effect, L *Term, w *rewriter, outer *Node) string {
	back := w.node(r.node(l.back))
	if ok, cx := entails(back, w.node(r.node(x.guard))); !ok {
		return "an output is left out when " + cut(litsStr(cx), 200)
	}
	why := ""
	for _, n := range []Val{wval(w, r.groups()), sc(w.term(r.term(lenTerm(L))))} {
		var ok bool
		if ok, why = r.e.doneAt(l, n, outer, back); ok {
			return ""
		}
	}
	return why
}

// scaleParam: which of the two numbers multiplies the leaf values.
func (p *Program) scaleParam(f *ssa.Function) int {
	e, _ := p.runRoot(f, func(g *ssa.Function) bool { return false })
	var fl []*Term
	for i, q := range f.Params {
		if isFloat(q.Type()) {
			fl = append(fl, one(e.symParams(f)[i]))
		}
	}
	if len(fl) != 2 {
		panic(undecided("scale and base of " + fname(f)))
	}
	for _, x := range e.effects {
		if x.kind != "append" && x.kind != "store" {
			continue
		}
		for i, s := range fl {
			for _, a := range altsOf(x.val) {
				if findSub(a.t, func(t *Term) bool {
					if t.op != "fmul" {
						return false
					}
					for _, y := range t.args {
						if y == s {
							return true
						}
					}
					return false
				}) != nil {
					return i
				}
			}
		}
	}
	return -1
}

func init() {
	reg("C11", func(p *Program, c *Ctx) { ruleKeep(p, c); ruleNodes(p, c) }, symText+"Rule: in every loader one converted tree is added per iteration of a loop (nest) that runs over all trees of the file, the converted tree is the one at the same position in the file, and it is not changed later; base score and weights are the file's; scikit-learn trees get the learning rate and, for the first estimator only, the initial estimate. In every converter of trees each node that is added has the feature, threshold, flags and leaves of the node of the file it stands for, every child that is not a leaf is added once and its parent's index for that side is the child's position, and the conversion ends only when nothing is pending; a tree without splits has the file's value. The key=value lines, lists of numbers and JSON nodes are read whole, each from its own key and position.", asmInts, asmFloat)
}

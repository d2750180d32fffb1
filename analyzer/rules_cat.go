package main

// C12: category sets keep their members when they are re-encoded on loading.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnCount = modPath + "/util.NumberOfSetBits"
	fnFirst = modPath + "/util.FirstNonZeroBit"
	fnBuild = modPath + "/util.ConstructBitset"
)

// utilCall: a call of a helper (the name may be followed by a memory version).
func utilCall(t *Term, name string) bool {
	return t != nil && t.op == "call" && len(t.args) == 1 && (t.aux == name || strings.HasPrefix(t.aux, name+","))
}

// stripInt removes integer conversions that keep 32 bits.
func stripInt(t *Term) *Term {
	for t.op == "conv" && isInt(t.typ) && isInt(t.args[0].typ) && intBits(t.typ) >= 32 {
		t = t.args[0]
	}
	return t
}

// CatRun: the category sets of one converter.
type CatRun struct {
	*NRun
	c             *Ctx
	bounds, words map[*Effect]bool // appends to the two lists of the tree
	pairs         []catPair
}

type catPair struct {
	b, w *Effect
	g    *Node
}

// valid: a file with categorical nodes says so.
func (n *CatRun) valid(g *Node) *Node {
	I := types.Typ[types.Int]
	switch n.kind {
	case "text":
		g = and(g, not(le0(polyOf(mkTerm("sym", "int P.num_cat", I)))))
	case "json":
		g = and(g, not(le0(polyOf(mkTerm("sym", "J.num_cat", I)))))
	}
	return g
}

// isSet: t is the whole set of node S as words; raw is t before renaming.
func (n *CatRun) isSet(t, raw, S *Term, g *Node) (bool, string) {
	switch n.kind {
	case "text":
		if t.op != "slice" || t.args[0].op != "list" || t.args[0].aux != "cat_threshold" {
			return false, "not words of the file"
		}
		lo, hi := stripInt(t.args[1]), stripInt(t.args[2])
		T, ok := n.catNumber(lo, S)
		if !ok {
			return false, "the words do not start where the node's set starts"
		}
		if hi.op != "nf" || hi.aux != "cat_boundaries" {
			return false, "the words do not end where the node's set ends"
		}
		if d := sub(stripInt(hi.args[0]), T); !isOne(d) {
			return false, "the words do not end where the node's set ends"
		}
		return true, ""
	case "json":
		if !utilCall(t, fnBuild) {
			return false, "not a set built from the categories"
		}
		r := findSub(raw, func(x *Term) bool { return utilCall(x, fnBuild) })
		if r == nil {
			panic(undecided("the categories of a node"))
		}
		return n.tokens(r.args[0], S, g)
	}
	return false, ""
}

func isOne(t *Term) bool { k, ok := t.intVal(); return ok && k == 1 }

// catNumber: lo is the first boundary of the set of node S.
func (n *CatRun) catNumber(lo, S *Term) (*Term, bool) {
	if lo.op != "nf" || lo.aux != "cat_boundaries" {
		return nil, false
	}
	T := stripInt(lo.args[0])
	th := n.fld("threshold", S)
	if T.op == "conv" && isInt(T.typ) && intBits(T.typ) >= 32 && T.args[0] == th {
		return T, true
	}
	return nil, false
}

// setString: the text with the categories of node S.
func (n *CatRun) setString(S *Term) *Term {
	return mkTerm("as", "string", types.Typ[types.String], n.fld("json threshold", S))
}

// tokens: the list holds the number in each token of the node's text.
func (n *CatRun) tokens(L, S *Term, g *Node) (bool, string) {
	parts, sz, why := n.e.buildOf(L)
	if why != "" || len(parts) != 1 {
		return false, "the categories are not listed one by one " + why
	}
	q := parts[0]
	if len(q.x.loops) == 0 {
		return false, "the categories are not listed one by one"
	}
	l := q.x.loops[len(q.x.loops)-1]
	var el *Term
	if q.val != nil {
		el = pick(q.x.guard, q.val)
		if q.idx != l.iv {
			return false, "a category is put at another position"
		}
	} else if len(q.el) == 1 {
		el = resolver(q.x.guard).term(q.el[0])
	}
	if el == nil {
		return false, "the categories are not listed one by one"
	}
	tok, why := parsed(el, types.Typ[types.Int])
	if tok == nil {
		return false, "a category is not the number in the text " + why
	}
	s, i := cutAt(trimmed(tok), "||")
	if s == nil || n.term(s) != n.setString(S) || i != l.iv {
		return false, "a category is not the token at its position"
	}
	if ok, _ := entails(l.back, q.x.guard); !ok {
		return false, "a category is skipped"
	}
	N := lenTerm(trimmed(tok).args[0].args[0])
	if ok, why := n.e.doneAt(l, sc(N), g, l.back); !ok {
		return false, "not all categories are listed: " + why
	}
	if sz != nil {
		if v := pickTerm(g, sz); v != N {
			return false, "the list has another length than there are categories"
		}
	}
	return true, ""
}

func pickTerm(g *Node, t *Term) *Term { return resolver(g).term(t) }

// forms of the threshold of a categorical node
func (n *CatRun) oneHot(c *Ctx, a *nodeAdd, t, raw *Term, g, rg *Node) bool {
	S := a.src
	if t.op == "res" && t.aux == "0" && utilCall(t.args[0], fnFirst) {
		X := t.args[0].args[0]
		rx := findSub(raw, func(x *Term) bool { return utilCall(x, fnFirst) })
		ok, why := n.isSet(X, rx.args[0], S, rg)
		if !c.must(ok, "sets", n.f, a.x.pos, "the single category is not taken from the node's set: %s @@%v", why, X) {
			return false
		}
		cnt := findIn(g, func(x *Term) bool { return utilCall(x, fnCount) && x.args[0] == X })
		if !c.must(cnt != nil, "sets", n.f, a.x.pos, "a set is taken for a single category without counting its members") {
			return false
		}
		return n.imply(c, g, eq0(polyOf(sub(cnt, intTerm(1)))), "sets", a.x.pos, "a set with several members is taken for a single category")
	}
	if n.kind == "json" {
		if tok, _ := parsed(t, types.Typ[types.Int]); tok != nil {
			s, i := cutAt(trimmed(tok), "||")
			if !c.must(s != nil && s == n.setString(S) && isZeroT(i), "sets", n.f, a.x.pos, "the single category is not the node's category @@%v", t) {
				return false
			}
			N := lenTerm(trimmed(tok).args[0].args[0])
			return n.imply(c, g, eq0(polyOf(sub(N, intTerm(1)))), "sets", a.x.pos, "a set with several members is taken for a single category")
		}
	}
	return c.must(false, "sets", n.f, a.x.pos, "what is stored for a single category is not the category @@%v", t)
}

func (n *CatRun) small(c *Ctx, a *nodeAdd, t, raw *Term, g, rg *Node) bool {
	S := a.src
	if n.kind == "text" && t.op == "nf" && t.aux == "cat_threshold" {
		lo := stripInt(t.args[0])
		T, ok := n.catNumber(lo, S)
		if !c.must(ok, "sets", n.f, a.x.pos, "the word stored for a small set is not the set's first word @@%v", t) {
			return false
		}
		hi := mkTerm("nf", "cat_boundaries", lo.typ, add(T, intTerm(1)))
		if h := findIn(g, func(x *Term) bool {
			return x.op == "nf" && x.aux == "cat_boundaries" && isOne(sub(stripInt(x.args[0]), T))
		}); h != nil {
			hi = h
		}
		// boundaries do not decrease
		g = newRewriter(func(t *Term) *Term {
			if t.op == "wrap" && findSub(t, func(x *Term) bool { return x == lo }) != nil {
				return t.args[0]
			}
			return nil
		}).node(g)
		return n.imply(c, g, eq0(polyOf(sub(sub(hi, lo), intTerm(1)))), "sets", a.x.pos, "a set of several words is stored as its first word")
	}
	if n.kind == "json" && t.op == "load" && t.args[0].op == "index" {
		X := t.args[0].args[0]
		r := findSub(raw, func(x *Term) bool { return utilCall(x, fnBuild) })
		ok, why := false, "not a set built from the categories"
		if r != nil {
			ok, why = n.isSet(X, r, S, rg)
		}
		ok = ok && isZeroT(t.args[0].args[1])
		if !c.must(ok, "sets", n.f, a.x.pos, "the word stored for a small set is not the set's first word: %s @@%v", why, t) {
			return false
		}
		return n.imply(c, g, eq0(polyOf(sub(lenTerm(X), intTerm(1)))), "sets", a.x.pos, "a set of several words is stored as its first word")
	}
	return c.must(false, "sets", n.f, a.x.pos, "what is stored for a small set is not its word @@%v", t)
}

// findIn: a term inside the atoms of g.
func findIn(g *Node, pred func(*Term) bool) *Term {
	for _, a := range support(g) {
		if t := findSub(a, pred); t != nil {
			return t
		}
	}
	return nil
}

func (n *CatRun) large(c *Ctx, a *nodeAdd, v Val, g, rg *Node) bool {
	for _, q := range n.pairs {
		if ok, _ := entails(and(g, n.assume(and(g, q.g))), n.valid(q.g)); !ok {
			continue
		}
		want := n.lenOf(q.b.addr)
		out := bd.F
		for _, x := range altsOf(v) {
			t := stripFloat(n.term(x.t))
			if t == nil {
				continue
			}
			for _, y := range altsOf(want) {
				out = or(out, and(n.node(x.g), y.g, eq0(polyOf(sub(sub(y.t, intTerm(1)), t)))))
			}
		}
		if !n.imply(c, g, out, "sets", a.x.pos, "the number stored for a large set is not that of the set's place") {
			return false
		}
		return n.stored(c, a, q, g, and(rg, q.w.guard))
	}
	return c.must(false, "sets", n.f, a.x.pos, "the words of a large set are not stored")
}

// stored: what pair q stores when node a is added.
func (n *CatRun) stored(c *Ctx, a *nodeAdd, q catPair, g, rg *Node) bool {
	some, all := false, true
	for _, x := range altsOf(q.w.val) {
		if unsat(and(g, n.node(x.g), n.assume(and(g, n.node(x.g))))) {
			continue
		}
		if !c.must(x.t.op == "appendall", "sets", n.f, q.w.pos, "the words of a large set are not stored at once") {
			return false
		}
		some = true
		ok, why := n.isSet(n.term(x.t.args[1]), x.t.args[1], a.src, rg)
		all = c.must(ok, "sets", n.f, q.w.pos, "the words stored for a large set are not those of the node's set: %s", why) && all
	}
	return c.must(some, "sets", n.f, q.w.pos, "the words of a large set are not stored") && all
}

// stripFloat: the integer a float64 was made from.
func stripFloat(t *Term) *Term {
	if t.op == "conv" && isFloat(t.typ) && fwidth(t.typ) == "64" && isInt(t.args[0].typ) {
		return stripInt(t.args[0])
	}
	if k, ok := t.floatVal(); ok && k == float64(int64(k)) {
		return intTerm(int64(k))
	}
	return nil
}

// node checks one categorical node.
func (n *CatRun) checkNode(c *Ctx, a *nodeAdd) {
	base := and(n.valid(a.g), n.flag(a, bCat))
	base = and(base, n.assume(base))
	if unsat(base) {
		return
	}
	oh, sm := n.flag(a, bOneHot), n.flag(a, bSmall)
	n.imply(c, base, not(and(oh, sm)), "sets", a.x.pos, "a set is marked as a single category and as a small set")
	v := n.val(a, "Threshold")
	for k, class := range []*Node{oh, and(sm, not(oh)), and(not(sm), not(oh))} {
		gk := and(base, class)
		if unsat(gk) {
			continue
		}
		if k == 2 {
			n.large(c, a, v, gk, a.x.guard)
			continue
		}
		for _, x := range altsOf(v) {
			g := and(gk, n.node(x.g))
			if _, sat := satTheory(and(g, n.assume(g))); !sat {
				continue
			}
			t := stripFloat(n.term(x.t))
			if !c.must(t != nil, "sets", n.f, a.x.pos, "the value stored for a category set is not a whole number @@%v", n.term(x.t)) {
				continue
			}
			rg := and(a.x.guard, x.g)
			if k == 0 {
				n.oneHot(c, a, t, x.t, g, rg)
			} else {
				n.small(c, a, t, x.t, g, rg)
			}
		}
	}
}

// chain finds the appends a list is made of and the lists it starts from
// (via: the list is extended after that).
func (n *CatRun) chain(c *Ctx, v Val, apps map[*Effect]bool, lists map[*Term]bool, start func(t *Term, g *Node, via bool)) {
	seen := map[*Term]bool{}
	var walk func(t *Term, g *Node, via bool)
	walk = func(t *Term, g *Node, via bool) {
		if t.op == "gv" {
			for _, a := range t.obj.(*Scalar).alts {
				walk(a.t, and(g, a.g), via)
			}
			return
		}
		lists[t] = true
		if t.op == "append" || t.op == "appendall" {
			if seen[t] {
				return
			}
			seen[t] = true
			found := false
			for _, x := range n.e.effects {
				if x.kind != "append" {
					continue
				}
				for _, a := range altsOf(x.val) {
					if a.t == t {
						apps[x], found = true, true
						walk(x.addr, x.guard, true)
					}
				}
			}
			if !found {
				panic(undecided("a list of category sets"))
			}
			return
		}
		if l, ph := n.e.phiBySym(t); ph != nil {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range altsOf(ph.init) {
				walk(a.t, and(l.entry, a.g), true)
			}
			for _, a := range altsOf(ph.next) {
				walk(a.t, and(l.back, a.g), true)
			}
			return
		}
		start(t, g, via)
	}
	for _, a := range altsOf(v) {
		walk(a.t, a.g, false)
	}
}

// lists checks how the two lists of a tree grow.
func (n *CatRun) lists(c *Ctx) {
	bn, wn := n.p.catLists()
	st := structOf(n.p.typ("", "lgTree"))
	n.bounds, n.words = map[*Effect]bool{}, map[*Effect]bool{}
	lists := map[*Term]bool{}
	for _, q := range n.rets {
		if unsat(and(q.g, errIsNil(lastVal(q.val)))) {
			continue
		}
		sv, _ := q.val.(*TupleVal).v[0].(*StructVal)
		if sv == nil {
			panic(undecided("the converted tree"))
		}
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case bn:
				n.chain(c, sv.f[i], n.bounds, lists, func(t *Term, g *Node, via bool) {
					h := n.valid(n.node(g))
					if !via || unsat(and(h, n.assume(h))) {
						return
					}
					c.must(isOne(lenTerm(t)) && n.zeroed(t), "lists", n.f, q.pos, "the list of set boundaries does not start with one 0 @@%v", t)
				})
			case wn:
				n.chain(c, sv.f[i], n.words, lists, func(t *Term, g *Node, via bool) {
					h := n.valid(n.node(g))
					if !via || unsat(and(h, n.assume(h))) {
						return
					}
					c.must(t == nilTerm || isZeroT(lenTerm(t)), "lists", n.f, q.pos, "the list of words does not start empty @@%v", t)
				})
			}
		}
	}
	for _, x := range n.e.effects {
		if (x.kind == "store" && x.addr != nil && x.addr.op == "index" && lists[x.addr.args[0]]) || (x.kind == "copy" && x.addr != nil && lists[x.addr]) {
			k := false
			if x.kind == "store" {
				v := one(x.val)
				k = v != nil && isZeroT(v) && isZeroT(x.addr.args[1]) && n.zeroed(x.addr.args[0])
			}
			c.must(k, "lists", n.f, x.pos, "the stored category sets are overwritten")
		}
	}
	// the end of a set is recorded when its words are
	for _, b := range effectList(n.e, n.bounds) {
		g := n.valid(n.node(b.guard))
		g = and(g, n.assume(g))
		if unsat(g) {
			continue
		}
		ok := false
		for _, w := range effectList(n.e, n.words) {
			if h, _ := entails(g, n.node(w.guard)); !h || len(b.args) != 2 {
				continue
			}
			eq := bd.F
			for _, x := range altsOf(b.args[1]) {
				for _, y := range altsOf(w.val) {
					d := sub(stripInt(n.term(x.t)), n.term(lenTerm(y.t)))
					eq = or(eq, and(n.node(x.g), n.node(y.g), eq0(polyOf(d))))
				}
			}
			if h, _ := entails(g, eq); h {
				n.pairs = append(n.pairs, catPair{b, w, n.node(b.guard)})
				ok = true
			}
		}
		c.must(ok, "lists", n.f, b.pos, "the boundary added for a set is not the number of words stored so far")
	}
	for _, w := range effectList(n.e, n.words) {
		g := n.valid(n.node(w.guard))
		g = and(g, n.assume(g))
		if unsat(g) {
			continue
		}
		h := bd.F
		for _, q := range n.pairs {
			if q.w == w {
				h = or(h, q.g)
			}
		}
		n.imply(c, g, h, "lists", w.pos, "words of a set are stored without a boundary")
	}
	c.must(len(n.pairs) > 0, "lists", n.f, n.f.Pos(), "large category sets are never stored")
}

func effectList(e *Engine, m map[*Effect]bool) []*Effect {
	var out []*Effect
	for _, x := range e.effects {
		if m[x] {
			out = append(out, x)
		}
	}
	return out
}

// zeroed: a new list that holds zeros only.
func (n *CatRun) zeroed(t *Term) bool {
	r := rootOf(t)
	if t.op == "slice" {
		r = rootOf(t.args[0])
	}
	if r.op != "alloc" && r.op != "make" {
		return false
	}
	for _, x := range n.e.effects {
		if x.kind == "copy" && x.addr != nil && rootOf(x.addr) == r {
			return false
		}
		if x.kind == "store" && x.addr != nil && x.addr.op == "index" && rootOf(x.addr) == r {
			if v := one(x.val); v == nil || !isZeroT(v) {
				return false
			}
		}
	}
	return true
}

func ruleCatSets(p *Program, c *Ctx) {
	set := map[*ssa.Function]bool{}
	for _, nm := range []string{"NumberOfSetBits", "FirstNonZeroBit", "ConstructBitset"} {
		set[p.fn("util", nm)] = true
	}
	done := 0
	for _, f := range p.converters() {
		f := f
		c.guarded("sets", f, func() {
			n := &CatRun{NRun: p.nodeRun(f, func(g *ssa.Function) bool { return set[g] }), c: c}
			if n.kind != "text" && n.kind != "json" {
				// no categories: nothing may be marked as such (C11)
				return
			}
			done++
			q := newCtx(p, "C11", "quick")
			n.collect(q)
			for _, a := range n.adds {
				n.fidelity(q, a)
				if a.src == nil {
					panic(undecided("the node of the file"))
				}
			}
			n.lists(c)
			for _, a := range n.adds {
				a := a
				c.guarded("sets", f, func() { n.checkNode(c, a) })
			}
		})
	}
	c.must(done == 2, "sets", nil, 0, "%d of 2 converters of trees with categories found", done)
	c.guarded("helpers", nil, func() { ruleCount(p, c) })
	c.guarded("helpers", nil, func() { ruleFirstBit(p, c) })
	c.guarded("helpers", nil, func() { ruleBuildSet(p, c) })
	c.guarded("helpers", nil, func() { ruleFind(p, c) })
}

// ruleSetsFit (C13): the words between two boundaries of a tree exist.
func ruleSetsFit(p *Program, c *Ctx) {
	set := map[*ssa.Function]bool{}
	for _, nm := range []string{"NumberOfSetBits", "FirstNonZeroBit", "ConstructBitset"} {
		if g := p.fnOpt("util", nm); g != nil {
			set[g] = true
		}
	}
	for _, f := range p.converters() {
		f := f
		c.guarded("lists", f, func() {
			n := &CatRun{NRun: p.nodeRun(f, func(g *ssa.Function) bool { return set[g] }), c: c}
			if n.kind != "text" && n.kind != "json" {
				return
			}
			n.collect(newCtx(p, "C11", "quick"))
			n.lists(c)
		})
	}
	c.floor("lists", 3)
}

// wordsIn: the elements of list b that occur in t.
func wordsIn(t, b *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	findSub(t, func(x *Term) bool {
		if x.op == "load" && x.args[0].op == "index" && x.args[0].args[0] == b && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return false
	})
	return out
}

// wordFacts: zero tests of a word in terms of its bits.
func wordFacts(g *Node, e *Term) *Node {
	out := bd.T
	none := bd.T
	for i := 0; i < intBits(e.typ); i++ {
		none = and(none, not(bitOf(e, i)))
	}
	for _, a := range support(g) {
		if p := polyOf(a.args0()); a.op == "eq0" && len(p) == 1 && len(p[0].fs) == 1 && p[0].fs[0] == e {
			out = and(out, iff(bd.atom(a), none))
		} else if a.op == "le0" && len(p) == 1 && p[0].c > 0 && len(p[0].fs) == 1 && p[0].fs[0] == e {
			out = and(out, iff(bd.atom(a), none))
		}
	}
	return out
}

func (t *Term) args0() *Term {
	if len(t.args) == 0 {
		return intTerm(1)
	}
	return t.args[0]
}

// ruleCount: the number of set bits.
func ruleCount(p *Program, c *Ctx) {
	const rule = "helpers"
	f := p.fn("util", "NumberOfSetBits")
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	b := one(e.symParams(f)[0])
	c.must(len(rets) > 0, rule, f, f.Pos(), "it never returns")
	for _, q := range rets {
		for _, a := range altsOf(q.val) {
			g := and(q.g, a.g)
			if unsat(g) {
				continue
			}
			if isZeroT(a.t) {
				c.imply(g, eq0(polyOf(lenTerm(b))), rule, f, q.pos, "0 is returned although there are words")
				continue
			}
			l, ph := e.phiBySym(stripInt(a.t))
			if !c.must(ph != nil, rule, f, q.pos, "the result is not the sum over the words @@%v", a.t) {
				continue
			}
			i := one(ph.init)
			c.must(i != nil && isZeroT(i), rule, f, q.pos, "the sum does not start at 0")
			c.must(isInt(ph.sym.typ) && intBits(ph.sym.typ) >= 32, rule, f, q.pos, "the sum is kept in a type that is too small for it")
			ok, why := e.doneAt(l, sc(lenTerm(b)), g, l.back)
			c.must(ok, rule, f, q.pos, "not all words are counted: %s", why)
			for _, y := range altsOf(ph.next) {
				h := and(l.back, y.g)
				d := sub(y.t, ph.sym)
				ws := wordsIn(d, b)
				for _, at := range support(h) {
					for _, x := range wordsIn(at, b) {
						if len(ws) == 0 || ws[0] != x {
							ws = append(ws, x)
						}
					}
				}
				if !c.must(len(ws) == 1 && ws[0].args[0].args[1] == l.iv, rule, f, q.pos, "what is added for a word is not taken from that word @@%v", d) {
					continue
				}
				want := constBits(0, 32)
				inp := map[*Term]bool{ws[0]: true}
				for i := 0; i < 32; i++ {
					x := constBits(0, 32)
					x[0] = bitOf(ws[0], i)
					want = addBits(want, x)
				}
				same := eqBits(e.bitsOf(retype(d, types.Typ[types.Uint32]), inp).fit(32), want)
				h = and(h, wordFacts(h, ws[0]))
				c.must(and(h, not(same)) == bd.F, rule, f, q.pos, "what is added for a word is not the number of its set bits")
			}
		}
	}
}

// ruleFirstBit: the position of the first set bit.
func ruleFirstBit(p *Program, c *Ctx) {
	const rule = "helpers"
	f := p.fn("util", "FirstNonZeroBit")
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	b := one(e.symParams(f)[0])
	some := false
	for _, q := range rets {
		tv, ok := q.val.(*TupleVal)
		if !ok {
			panic(undecided("the result"))
		}
		if g := and(q.g, not(errIsNil(lastVal(q.val)))); !unsat(g) {
			// all words are zero
			var done *Node = bd.F
			for _, l := range e.loopByID {
				done = or(done, asBool(e.binop(token.GEQ, sc(l.iv), sc(lenTerm(b)), types.Typ[types.Int], types.Typ[types.Bool])))
			}
			done = or(done, eq0(polyOf(lenTerm(b))))
			c.imply(g, done, rule, f, q.pos, "an error is returned before all words were seen")
		}
		for _, a := range altsOf(tv.v[0]) {
			g := and(q.g, and(a.g, errIsNil(lastVal(q.val))))
			if unsat(g) {
				continue
			}
			some = true
			var l *LoopInst
			var w *Term
			for _, x := range wordsIn(a.t, b) {
				for _, y := range e.loopByID {
					if x.args[0].args[1] == y.iv {
						l, w = y, x
					}
				}
			}
			if !c.must(w != nil, rule, f, q.pos, "the result is not taken from a word @@%v", a.t) {
				continue
			}
			v := mod32(a.t)
			d := retype(sub(v, mul(intTerm(32), l.iv)), types.Typ[types.Uint32])
			facts := func(h *Node) *Node { return and(h, wordFacts(h, w)) }
			nz := bd.F
			for i := 0; i < 32; i++ {
				nz = or(nz, bitOf(w, i))
			}
			c.must(and(facts(g), not(nz)) == bd.F, rule, f, q.pos, "the result may be taken from a word that is 0")
			c.must(and(facts(l.back), nz) == bd.F, rule, f, q.pos, "a word that is not 0 may be skipped")
			inp := map[*Term]bool{w: true}
			same := eqBits(e.bitsOf(d, inp).fit(32), lowestBit(e.bitsOf(w, inp), 32))
			c.must(and(facts(g), nz, not(same)) == bd.F, rule, f, q.pos, "the result is not the position of the lowest bit of the word @@%v", d)
		}
	}
	c.must(some, rule, f, f.Pos(), "a position is never returned")
}

// mod32: t, or another number that is equal to it modulo 1<<32.
func mod32(t *Term) *Term {
	out := intTerm(0)
	for _, m := range polyOf(t) {
		x := intTerm(m.c)
		for _, q := range m.fs {
			if f := q; isInt(f.typ) && intBits(f.typ) >= 32 {
				switch f.op {
				case "conv", "wrap":
					if isInt(f.args[0].typ) && intBits(f.args[0].typ) >= 32 {
						q = mod32(f.args[0])
					}
				case "shl":
					if k, ok := f.args[1].intVal(); ok && k < 32 {
						q = mul(mod32(f.args[0]), intTerm(1<<uint(k)))
					}
				}
			}
			x = mul(x, q)
		}
		out = add(out, x)
	}
	return out
}

// strip all integer conversions
func stripAllInt(t *Term) *Term {
	for (t.op == "conv" || t.op == "wrap") && isInt(t.typ) && isInt(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// ruleBuildSet: the bit set of a list of categories.
func ruleBuildSet(p *Program, c *Ctx) {
	const rule = "helpers"
	f := p.fn("util", "ConstructBitset")
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	b := one(e.symParams(f)[0])
	some := false
	for _, q := range rets {
		for _, a := range altsOf(q.val) {
			g := and(q.g, a.g)
			if unsat(g) {
				continue
			}
			R := a.t
			if R == nilTerm || R.op == "make" && isZeroT(R.args[0]) || R.op == "slice" && isZeroT(R.args[2]) {
				c.imply(g, eq0(polyOf(lenTerm(b))), rule, f, q.pos, "an empty set is returned although there are categories")
				continue
			}
			if !c.must(R.op == "make", rule, f, q.pos, "the set is not a new list @@%v", R) {
				continue
			}
			some = true
			var st []*Effect
			for _, x := range e.effects {
				if x.addr == nil || rootOf(x.addr) != R {
					continue
				}
				switch x.kind {
				case "store":
					st = append(st, x)
				case "copy", "append", "call", "invoke":
					panic(undecided("how the set is filled"))
				}
			}
			if !c.must(len(st) == 1 && len(st[0].loops) == 1 && st[0].addr.op == "index", rule, f, q.pos, "the set is not filled in one loop over the categories") {
				continue
			}
			x := st[0]
			l := x.loops[0]
			c.imply(l.back, x.guard, rule, f, x.pos, "a category is skipped")
			ok, why := e.doneAt(l, sc(lenTerm(b)), g, l.back)
			c.must(ok, rule, f, x.pos, "not all categories are put into the set: %s", why)
			ws := wordsIn(x.addr.args[1], b)
			if !c.must(len(ws) == 1 && ws[0].args[0].args[1] == l.iv, rule, f, x.pos, "the word that is changed is not that of the category") {
				continue
			}
			v := ws[0]
			c.must(quotient(x.addr.args[1], v, 32), rule, f, x.pos, "the word that is changed is not number category/32 @@%v", x.addr.args[1])
			val := one(x.val)
			good := false
			if val != nil && val.op == "or" && len(val.args) == 2 {
				for i := 0; i < 2; i++ {
					o, n := val.args[i], val.args[1-i]
					if o.op == "load" && o.args[0] == x.addr && n.op == "shl" && isOne(n.args[0]) && remainder(n.args[1], v, 32) {
						good = true
					}
				}
			}
			c.must(good, rule, f, x.pos, "the bit that is set is not number category%%32, or others are lost @@%v", val)
			c.guarded(rule, f, func() { e.roomFor(c, f, g, R, b) })
		}
	}
	c.must(some, rule, f, f.Pos(), "a set is never returned")
}

// quotient: t is v/n for v >= 0.
func quotient(t, v *Term, n int64) bool {
	t = stripAllInt(t)
	k, _ := isPow2(n)
	switch t.op {
	case "div":
		m, ok := t.args[1].intVal()
		return ok && m == n && stripAllInt(t.args[0]) == v
	case "shr":
		m, ok := t.args[1].intVal()
		return ok && m == int64(k) && stripAllInt(t.args[0]) == v
	}
	return false
}

// remainder: t is v%n for v >= 0.
func remainder(t, v *Term, n int64) bool {
	t = stripAllInt(t)
	switch t.op {
	case "rem":
		m, ok := t.args[1].intVal()
		return ok && m == n && stripAllInt(t.args[0]) == v
	case "and":
		if len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				m, ok := t.args[i].intVal()
				if ok && m == n-1 && stripAllInt(t.args[1-i]) == v {
					return true
				}
			}
		}
	}
	return false
}

// roomFor: the list R has more than max/32 words.
func (e *Engine) roomFor(c *Ctx, f *ssa.Function, g *Node, R, b *Term) {
	const rule = "helpers"
	var M *Term
	findSub(R.args[0], func(t *Term) bool {
		if _, ph := e.phiBySym(t); ph != nil || isCall(t, "slices.Max") {
			M = t
		}
		if t.op == "gv" {
			for _, a := range t.obj.(*Scalar).alts {
				findSub(a.t, func(t *Term) bool {
					if _, ph := e.phiBySym(t); ph != nil || isCall(t, "slices.Max") {
						M = t
					}
					return false
				})
			}
		}
		return false
	})
	if M == nil {
		panic(undecided("the length of the set"))
	}
	// every category v has E(v) <= M
	v := M
	E := M
	if l, ph := e.phiBySym(M); ph != nil {
		v, E = nil, nil
		for _, a := range altsOf(ph.next) {
			for _, w := range wordsIn(a.t, b) {
				v, E = w, a.t
			}
		}
		if !c.must(v != nil, rule, f, l.pos, "the largest category is not taken from the list") {
			return
		}
		off, isC := sub(v.args[0].args[1], l.iv).intVal()
		i := one(ph.init)
		first := i != nil && E == v && i.op == "load" && i.args[0].op == "index" && i.args[0].args[0] == b && isZeroT(i.args[0].args[1])
		if !c.must(isC && (off == 0 || off == 1 && first), rule, f, l.pos, "a category is skipped when the largest is searched") {
			return
		}
		ok, why := e.doneAt(l, sc(sub(lenTerm(b), intTerm(off))), g, l.back)
		c.must(ok, rule, f, l.pos, "a category is skipped when the largest is searched: %s", why)
		for _, a := range altsOf(ph.next) {
			h := and(l.back, a.g)
			c.imply(h, and(le0(polyOf(sub(M, a.t))), le0(polyOf(sub(E, a.t)))), rule, f, l.pos, "a smaller category is taken for the largest")
		}
	} else {
		c.must(M.args[0] == b, rule, f, f.Pos(), "the largest category is not that of the list")
	}
	facts := le0(polyOf(sub(intTerm(0), v)))
	// expand replaces 32*(x/32) by x - x%32
	expand := func(P *Term) *Term {
		for {
			d := findSub(P, func(t *Term) bool {
				return (t.op == "div" || t.op == "shr") && (occurs(t, M) || occurs(t, v))
			})
			if d == nil {
				return P
			}
			x := stripAllInt(d.args[0])
			if k, ok := d.args[1].intVal(); !ok || d.op == "div" && k != 32 || d.op == "shr" && k != 5 {
				return P
			}
			co, rest, ok := linearIn(P, d)
			n, isC := int64(0), false
			if ok {
				n, isC = co.intVal()
			}
			if !isC || n%32 != 0 {
				return P
			}
			r := remTerm(x, intTerm(32), types.Typ[types.Int])
			P = add(rest, mul(intTerm(n/32), sub(x, r)))
			facts = and(facts, le0(polyOf(sub(r, intTerm(31)))), le0(polyOf(sub(intTerm(0), r))))
		}
	}
	facts = and(facts, le0(polyOf(sub(E, M))))
	facts = and(facts, le0(polyOf(expand(mul(intTerm(32), sub(E, M))))))
	alts := []Alt{{bd.T, R.args[0]}}
	if R.args[0].op == "gv" {
		alts = R.args[0].obj.(*Scalar).alts
	}
	for _, a := range alts {
		// v + 1 - 32 n <= 0
		P := expand(sub(add(v, intTerm(1)), mul(intTerm(32), a.t)))
		c.imply(and(g, a.g, facts), le0(polyOf(P)), rule, f, f.Pos(), "the set may be too short for the largest category")
	}
}

// ruleFind: the test of one bit.
func ruleFind(p *Program, c *Ctx) {
	const rule = "helpers"
	f := p.fnOpt("util", "FindInBitsetUint32")
	if f == nil {
		return
	}
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	ps := e.symParams(f)
	word, pos := one(ps[0]), one(ps[1])
	res := bd.F
	for _, q := range rets {
		res = or(res, and(q.g, asBool(q.val)))
	}
	big := not(le0(polyOf(sub(pos, intTerm(31)))))
	c.must(unsat(and(res, big)), rule, f, f.Pos(), "a category outside the word is found")
	for k := int64(0); k < 32; k++ {
		r := newRewriter(func(t *Term) *Term {
			if t == pos {
				return constTerm(constant.MakeInt64(k), pos.typ)
			}
			return nil
		})
		ok, _ := equivTh(r.node(res), bitOf(word, int(k)), bd.T)
		c.must(ok, rule, f, f.Pos(), "category %d is not found by its bit", k)
	}
}

func init() {
	reg("C12", ruleCatSets, symText+"Rule: in the converters of trees with categories, for every categorical node the value stored under each mark is that of the node's own set (a single member only where the set's members are counted as one; the only word of a one-word set; the number of the place where exactly the set's words are appended, the boundary list getting the number of words at the same time); the bit helpers are evaluated bit by bit (decision diagrams over the bits of a word) against their definition.", asmInts, "a file with categorical nodes has a positive number of category sets, categories are not negative")
}

package main

// C11 (text): what the loaders read from the text of a model file - the
// key=value lines, the lists of numbers, the JSON tree nodes.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// resolver replaces values that depend on the path by the one possible at g.
func resolver(g *Node) *rewriter {
	return newRewriter(func(t *Term) *Term {
		if t.op != "gv" {
			return nil
		}
		v, ok := t.obj.(*Scalar)
		if !ok {
			return nil
		}
		var one *Term
		for _, a := range v.alts {
			if unsat(and(g, a.g)) {
				continue
			}
			if one != nil && one != a.t {
				return nil
			}
			one = a.t
		}
		return one
	})
}

// pick: the value of v at g.
func pick(g *Node, v Val) *Term {
	w := resolver(g)
	var t *Term
	for _, a := range altsOf(v) {
		if unsat(and(g, a.g)) {
			continue
		}
		x := w.term(a.t)
		if t != nil && t != x {
			return nil
		}
		t = x
	}
	return t
}

func isCall(t *Term, names ...string) bool {
	if t == nil || t.op != "call" && t.op != "ext" {
		return false
	}
	for _, n := range names {
		if t.aux == n {
			return true
		}
	}
	return false
}

// trimmed strips strings.TrimSpace and the like.
func trimmed(t *Term) *Term {
	for isCall(t, "strings.TrimSpace", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimLeft", "strings.Trim") {
		t = t.args[0]
	}
	return t
}

// cutAt: t is part i of s cut at sep.
func cutAt(t *Term, sep string) (s *Term, i *Term) {
	if t.op == "load" && t.args[0].op == "index" {
		l := t.args[0].args[0]
		if isCall(l, "strings.Split", "strings.SplitN") {
			if k, ok := l.args[1].strVal(); ok && k == sep {
				return l.args[0], t.args[0].args[1]
			}
		}
		if isCall(l, "strings.Fields") && sep == " " {
			return l.args[0], t.args[0].args[1]
		}
	}
	if t.op == "res" && isCall(t.args[0], "strings.Cut") {
		if k, ok := t.args[0].args[1].strVal(); ok && k == sep && t.aux != "2" {
			n := int64(0)
			if t.aux == "1" {
				n = 1
			}
			return t.args[0].args[0], intTerm(n)
		}
	}
	return nil, nil
}

// splitFacts: strings.Split never returns an empty list.
func splitFacts(g *Node) *Node {
	out := bd.T
	for _, a := range support(g) {
		findSub(a, func(t *Term) bool {
			if t.op == "len" && isCall(t.args[0], "strings.Split") {
				n := func(k int64) []Mono { return polyOf(sub(t, intTerm(k))) }
				out = and(out, and(not(le0(n(0))), or(not(le0(n(2))), or(eq0(n(1)), eq0(n(2))))))
			}
			return false
		})
	}
	return out
}

// ruleParams: every line up to a blank one is kept, with its own key.
func ruleParams(p *Program, c *Ctx) {
	f := p.fn("util", "ReadParamsUntilBlank")
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	const rule = "lines"
	var ups []*Effect
	for _, x := range e.effects {
		if x.kind == "mapupdate" {
			ups = append(ups, x)
		}
	}
	c.must(len(ups) > 0, rule, f, f.Pos(), "no line is kept")
	lines := map[*Term]bool{}
	hits := map[*LoopInst]*Node{}
	for _, x := range ups {
		if len(x.loops) > 0 {
			l := x.loops[len(x.loops)-1]
			if hits[l] == nil {
				hits[l] = bd.F
			}
			hits[l] = or(hits[l], x.guard)
		}
		for _, av := range altsOf(x.val) {
			g := and(x.guard, av.g)
			if !unsat(g) {
				keepLine(c, f, e, x, g, resolver(g).term(av.t), lines)
			}
		}
	}
	for l, h := range hits {
		c.imply(and(l.back, splitFacts(l.back)), h, rule, f, l.pos, "a line is skipped")
	}
	for _, q := range rets {
		g := and(q.g, errIsNil(lastVal(q.val)))
		if unsat(g) {
			continue
		}
		n := bd.F
		for _, a := range support(g) {
			findSub(a, func(t *Term) bool {
				if t.op == "len" && (isLine(t.args[0]) || lines[t.args[0]] || lineOf(e, t.args[0], map[*Term]bool{})) {
					n = or(n, eq0(polyOf(t)))
				}
				return false
			})
		}
		c.imply(g, n, rule, f, q.pos, "reading ends before a blank line")
	}
}

func isLine(s *Term) bool {
	s = trimmed(s)
	return s.op == "res" && s.aux == "0" && (isCall(s.args[0], "(*bufio.Reader).ReadString") || s.args[0].op == "ext") ||
		s.op == "conv" && trimmed(s.args[0]).op == "res"
}

// lineOf: a line, or a variable that only holds lines (and "" at first).
func lineOf(e *Engine, s *Term, seen map[*Term]bool) bool {
	if isLine(s) || seen[s] {
		return true
	}
	seen[s] = true
	if s.op == "gv" {
		for _, a := range s.obj.(*Scalar).alts {
			if !lineOf(e, a.t, seen) {
				return false
			}
		}
		return true
	}
	if v, isC := s.strVal(); isC {
		return v == "" && len(seen) > 1
	}
	l, ph := e.phiBySym(s)
	if ph == nil {
		return false
	}
	in := func(g *Node, v Val) bool {
		for _, a := range altsOf(v) {
			if !unsat(and(g, a.g)) && !lineOf(e, a.t, seen) {
				return false
			}
		}
		return true
	}
	return in(l.entry, ph.init) && in(l.back, ph.next)
}

// keepLine: one key and value that are kept when g holds.
func keepLine(c *Ctx, f *ssa.Function, e *Engine, x *Effect, g *Node, v *Term, lines map[*Term]bool) {
	const rule = "lines"
	k := pick(g, x.args[0])
	if !c.must(k != nil, rule, f, x.pos, "the key depends on the path") {
		return
	}
	s, i := cutAt(k, "=")
	if !c.must(s != nil && isZeroT(i), rule, f, x.pos, "the key is not the part of the line before the =: %v", k) {
		return
	}
	lines[s] = true
	c.must(lineOf(e, s, map[*Term]bool{}), rule, f, x.pos, "what is kept is not a line of the file: %v", s)
	if z, isS := v.strVal(); isS && z == "" {
		n := bd.F
		for _, a := range support(g) {
			findSub(a, func(t *Term) bool {
				if t.op == "len" && isCall(t.args[0], "strings.Split", "strings.SplitN") && t.args[0].args[0] == s {
					n = or(n, le0(polyOf(sub(t, intTerm(1)))))
				}
				if t.op == "res" && t.aux == "2" && isCall(t.args[0], "strings.Cut") && t.args[0].args[0] == s {
					n = or(n, not(bd.atom(t)))
				}
				return false
			})
		}
		c.imply(and(g, splitFacts(g)), n, rule, f, x.pos, "the value of a line with a = is lost")
		return
	}
	s2, j := cutAt(v, "=")
	n, isN := int64(0), false
	if j != nil {
		n, isN = j.intVal()
	}
	c.must(s2 == s && isN && n == 1, rule, f, x.pos, "the value is not the part of the same line after the =: %v", v)
}

// ruleNumberLists: the lists of numbers of the text format.
func ruleNumberLists(p *Program, c *Ctx) {
	const rule = "numbers"
	n := 0
	for _, f := range p.methodsOf("util", "stringParams") {
		f := f
		rs := f.Signature.Results()
		if rs.Len() != 2 || rs.At(1).Type().String() != "error" {
			continue
		}
		sl, ok := rs.At(0).Type().Underlying().(*types.Slice)
		if !ok || !isInt(sl.Elem()) && !isFloat(sl.Elem()) {
			continue
		}
		n++
		c.guarded(rule, f, func() { numberList(p, c, f, sl.Elem()) })
	}
	c.must(n > 0, rule, nil, 0, "no functions that read lists of numbers found")
}

func numberList(p *Program, c *Ctx, f *ssa.Function, et types.Type) {
	const rule = "numbers"
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	some := false
	for _, q := range rets {
		g := and(q.g, errIsNil(lastVal(q.val)))
		if unsat(g) {
			continue
		}
		some = true
		tv, _ := q.val.(*TupleVal)
		if tv == nil {
			panic(undecided("the list that is returned"))
		}
		var L *Term
		for _, a := range altsOf(tv.v[0]) {
			if !unsat(and(g, a.g)) {
				L = a.t
			}
		}
		if !c.must(L != nil, rule, f, q.pos, "the list depends on the path") {
			continue
		}
		parts, sz, why := e.buildOf(L)
		if !c.must(why == "" && len(parts) == 1, rule, f, q.pos, "the list is not built from the tokens one by one (%s)", why) {
			continue
		}
		x := parts[0].x
		if !c.must(len(x.loops) == 1, rule, f, x.pos, "elements are not added in one loop") {
			continue
		}
		l := x.loops[0]
		var el *Term
		if parts[0].val != nil {
			el = pick(x.guard, parts[0].val)
		} else if len(parts[0].el) == 1 {
			el = resolver(x.guard).term(parts[0].el[0])
		}
		if !c.must(el != nil, rule, f, x.pos, "more than one element is added per token") {
			continue
		}
		tok, why := parsed(el, et)
		if !c.must(tok != nil, rule, f, x.pos, "an element is not the number in the text: %s %v", why, el) {
			continue
		}
		s, i := cutAt(trimmed(tok), " ")
		if !c.must(s != nil && s.op == "lookup" && i == l.iv, rule, f, x.pos, "the element is not the token at its position: %v", tok) {
			continue
		}
		key := one(e.symParams(f)[1])
		c.must(s.args[1] == key, rule, f, x.pos, "the numbers of another key are read")
		if parts[0].val != nil {
			c.must(parts[0].idx == l.iv, rule, f, x.pos, "the element is put at another position")
		}
		c.imply(l.back, x.guard, rule, f, x.pos, "a token is skipped")
		N := lenTerm(trimmed(tok).args[0].args[0])
		ok, why := e.doneAt(l, sc(N), g, l.back)
		c.must(ok, rule, f, x.pos, "not all tokens are read: %s", why)
		if sz != nil {
			c.must(resolver(g).term(sz) == N, rule, f, x.pos, "the list has another length than there are tokens: %v", sz)
		}
	}
	c.must(some, rule, f, f.Pos(), "a list is never returned")
}

// parsed: t is the number in a string, without loss for values of type et.
func parsed(t *Term, et types.Type) (*Term, string) {
	conv := t
	for (conv.op == "conv" || conv.op == "fconv") && len(conv.args) == 1 {
		if isFloat(et) {
			return nil, "(converted)"
		}
		conv = conv.args[0]
	}
	if conv.op != "res" || conv.aux != "0" {
		return nil, ""
	}
	k := conv.args[0]
	w := width(et)
	bits := func(i int) int64 {
		if n, ok := k.args[i].intVal(); ok {
			if n == 0 {
				return 64
			}
			return n
		}
		return 999
	}
	un := false
	if b, ok := et.Underlying().(*types.Basic); ok {
		un = b.Info()&types.IsUnsigned != 0
	}
	switch {
	case isCall(k, "strconv.ParseFloat") && isFloat(et):
		if bits(1) != int64(w) {
			return nil, "(precision)"
		}
	case isCall(k, "strconv.ParseInt") && !un, isCall(k, "strconv.ParseUint") && un:
		if b, ok := k.args[1].intVal(); !ok || b != 10 {
			return nil, "(base)"
		}
		if bits(2) > int64(w) {
			return nil, "(numbers that do not fit are cut)"
		}
	case isCall(k, "strconv.ParseUint") && !un:
		if b, ok := k.args[1].intVal(); !ok || b != 10 || bits(2) >= int64(w) {
			return nil, "(numbers that do not fit are cut)"
		}
	case isCall(k, "strconv.Atoi") && !un:
		if w < 64 {
			return nil, "(numbers that do not fit are cut)"
		}
	default:
		return nil, ""
	}
	return k.args[0], ""
}

func width(t types.Type) int {
	return int(types.SizesFor("gc", "amd64").Sizeof(t)) * 8
}

// methodsOf: functions declared on a type or a pointer to it.
func (p *Program) methodsOf(rel, name string) []*ssa.Function {
	t := p.typ(rel, name)
	var out []*ssa.Function
	ms := p.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if f := p.prog.FuncValue(ms.At(i).Obj().(*types.Func)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// jsonDecoder checks what the recursive decoder of JSON tree nodes returns.
func (n *NRun) jsonDecoder(c *Ctx) {
	const rule = "decode"
	dec, e, rets := n.dec, n.decE, n.decR
	raw := one(e.symParams(dec)[0])
	// what call filled an object
	filled := map[*Term]*Effect{}
	for _, x := range e.effects {
		if x.kind != "call" || x.fn == dec || len(x.args) != 2 {
			continue
		}
		if pick(x.guard, x.args[0]) == raw {
			if d := pick(x.guard, x.args[1]); d != nil {
				filled[unIface(d)] = x
			}
		}
	}
	var kids []*Effect
	for _, x := range e.effects {
		if x.kind == "store" && x.addr != nil && x.addr.op == "field" && types.Identical(structPtr(x.addr.args[0].typ), n.src) {
			kids = append(kids, x)
		}
	}
	leaf, inner := false, false
	for _, q := range rets {
		g := and(q.g, errIsNil(lastVal(q.val)))
		if unsat(g) {
			continue
		}
		tv, _ := q.val.(*TupleVal)
		if tv == nil {
			panic(undecided("the decoded node"))
		}
		v := pick(g, tv.v[0])
		if !c.must(v != nil, rule, dec, q.pos, "the decoded node depends on the path") {
			continue
		}
		o := unIface(v)
		if isFloat(o.typ) {
			leaf = true
			ok := false
			for o.op == "as" && o.aux == "float64" {
				o = o.args[0]
			}
			if o.op == "lookup" {
				k, _ := o.args[1].strVal()
				ok = k == "leaf_value"
			}
			if o.op == "load" {
				o = o.args[0]
			}
			if o.op == "fieldof" || o.op == "field" || o.op == "out" {
				findSub(o, func(t *Term) bool {
					if t.op != "fieldof" && t.op != "field" && t.op != "out" {
						return false
					}
					for _, b := range append([]*Term{o}, t.args...) {
						if st := structOf(structPtrT(b.typ)); st != nil {
							for i := 0; i < st.NumFields(); i++ {
								if st.Field(i).Name() == o.aux && jsonTag(st, i) == "leaf_value" {
									ok = true
								}
							}
						}
					}
					return false
				})
			}
			c.must(ok, rule, dec, q.pos, "the value of a leaf is not its leaf_value: %v", v)
			continue
		}
		if !types.Identical(structPtrT(o.typ), n.src) {
			c.must(false, rule, dec, q.pos, "something else than a node is returned: %v", v)
			continue
		}
		inner = true
		x := filled[o]
		if c.must(x != nil, rule, dec, q.pos, "the node returned is not the one decoded: %v", v) {
			c.imply(g, x.guard, rule, dec, q.pos, "a node is returned that was not decoded")
		}
		for fld, tag := range n.child {
			hit := bd.F
			for _, y := range kids {
				if y.addr.aux != fld || y.addr.args[0] != o {
					continue
				}
				if y.guard == bd.F {
					continue
				}
				hit = or(hit, y.guard)
				r := pick(y.guard, y.val)
				c.must(r != nil && n.decoded[r] == tag, rule, dec, y.pos, "field %s is not the decoded %s: %v", fld, tag, r)
			}
			c.imply(g, hit, rule, dec, q.pos, "a node is returned without its "+tag)
		}
		for _, y := range kids {
			if y.addr.args[0] == o {
				c.must(n.child[y.addr.aux] != "", rule, dec, y.pos, "field %s of the node is changed after decoding", y.addr.aux)
			}
		}
	}
	c.must(leaf && inner, rule, dec, dec.Pos(), "only leaves or only nodes are decoded")
	tags := map[string]bool{}
	for _, t := range n.child {
		tags[t] = true
	}
	c.must(tags["left_child"] && tags["right_child"], rule, dec, dec.Pos(), "the children are not left_child and right_child")
}

func structPtrT(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return structPtr(t)
}

func unIface(t *Term) *Term {
	for t.op == "iface" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

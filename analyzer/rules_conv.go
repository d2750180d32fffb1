package main

// C15, below the loaders: the functions that convert one tree, and the steps
// of reading. A tree is only accepted when its counts agree with each other,
// and an error is only reported when a step failed or the data are wrong.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failures: the facts in g that say that a step failed or that something is
// not in the file.
func (n *NRun) failures(g *Node) *Node {
	is := func(x *Term, typ string) *Node { return bd.atom(mkTerm("is", typ, types.Typ[types.Bool], x)) }
	out := bd.F
	for _, a := range support(g) {
		switch a.op {
		case "isnil":
			if a.args[0].typ != nil && types.Identical(a.args[0].typ, errType) {
				out = or(out, not(bd.atom(a)))
			}
		case "is":
			x := a.args[0]
			if x.op == "nf" && x.aux == "json threshold" {
				d := mkTerm("nf", "json decision_type", types.Typ[types.String], x.args[0])
				out = or(out, or(and(eqStr(sc(d), "=="), not(is(x, "string"))), and(eqStr(sc(d), "<="), not(is(x, "float64")))))
				continue
			}
			if n.src == nil {
				continue
			}
			// neither a leaf nor an inner node
			out = or(out, and(not(is(x, "float64")), not(is(x, types.TypeString(types.NewPointer(n.src), nil)))))
		case "has", "sym":
			if a.op != "sym" || strings.HasPrefix(a.aux, "has ") {
				out = or(out, not(bd.atom(a)))
			}
		}
	}
	return out
}

// counts: what has to hold for a tree that is accepted by return q.
func (n *NRun) counts(g *Node, leaves *Term) []cond {
	F := func(what string, x *Term, y *Term) cond { return cond{what, eq0(polyOf(sub(x, y)))} }
	I := types.Typ[types.Int]
	one1 := intTerm(1)
	switch n.kind {
	case "text":
		nl := mkTerm("sym", "int P.num_leaves", I)
		ln := func(k string) *Term {
			t := n.rtypes["P."+k]
			if t == nil {
				panic(undecided("the list " + k))
			}
			return lenTerm(mkTerm("list", k, t))
		}
		out := []cond{
			{"it has a leaf", not(le0(polyOf(nl)))},
			F("it has as many leaf values as leaves", ln("leaf_value"), nl),
		}
		con := eq0(polyOf(sub(nl, one1)))
		for _, k := range []string{"left_child", "right_child", "decision_type", "split_feature", "threshold"} {
			c := F("its list "+k+" has one entry less than leaves", ln(k), sub(nl, one1))
			out = append(out, cond{c.what, or(con, c.n)})
		}
		return out
	case "json":
		nl := mkTerm("sym", "J.num_leaves", I)
		out := []cond{{"it has a leaf", not(le0(polyOf(nl)))}}
		if leaves != nil {
			k := lenTerm(leaves)
			if leaves.op == "append" && (leaves.args[0] == nilTerm || leaves.args[0].op == "make" && isZeroT(leaves.args[0].args[0])) {
				k = one1
			}
			out = append(out, F("it has as many leaves as stated", k, nl))
		}
		return out
	case "sklearn":
		fs := map[string]*Term{}
		for _, a := range support(g) {
			findSub(a, func(t *Term) bool {
				switch {
				case (t.op == "fieldof" || t.op == "load" && t.args[0].op == "field") && isInt(t.typ):
					nm := t.aux
					if t.op == "load" {
						nm = t.args[0].aux
					}
					if strings.HasSuffix(t.String(), "Tree."+nm) || strings.HasSuffix(t.String(), "Tree->"+nm) {
						fs[nm] = t
					}
				case t.op == "len":
					u := t.args[0]
					nm := u.aux
					if u.op == "load" {
						nm = u.args[0].aux
					}
					fs["len "+nm] = t
				}
				return false
			})
		}
		var out []cond
		have := func(what, x, y string, k int64) {
			a, b := fs[x], intTerm(k)
			if y != "" {
				b = fs[y]
			}
			if a == nil || b == nil {
				out = append(out, cond{what, bd.F})
				return
			}
			out = append(out, F(what, a, b))
		}
		have("it has one output", "NOutputs", "", 1)
		have("it has as many nodes as stated", "len Nodes", "NNodes", 0)
		have("it has as many values as nodes", "len Values", "NNodes", 0)
		return out
	}
	return nil
}

func ruleConverters(p *Program, c *Ctx) {
	set := map[*ssa.Function]bool{}
	for _, nm := range []string{"NumberOfSetBits", "FirstNonZeroBit", "ConstructBitset"} {
		set[p.fnOpt("util", nm)] = true
	}
	for _, f := range p.converters() {
		f := f
		c.guarded("counts", f, func() {
			n := p.nodeRun(f, func(g *ssa.Function) bool { return set[g] })
			var conds []cond
			var bad []retEdge
			for _, q := range n.rets {
				nl := errIsNil(lastVal(q.val))
				g := n.node(and(q.g, nl))
				g = and(g, n.assume(g))
				if b := n.node(and(q.g, not(nl))); !unsat(b) {
					q.g = b
					bad = append(bad, q)
				}
				if unsat(g) {
					continue
				}
				ks := n.counts(g, n.leafList(g, q))
				conds = append(conds, ks...)
				for _, k := range ks {
					n.imply(c, g, k.n, "counts", q.pos, "a tree is accepted although it is not so that "+k.what)
				}
			}
			for _, q := range bad {
				B := or(n.failures(q.g), n.wrong(q.g))
				for _, k := range conds {
					B = or(B, not(k.n))
				}
				n.imply(c, q.g, B, "accept", q.pos, fname(f)+" refuses a tree it supports")
			}
		})
	}
	c.floor("counts", 10)
}

// leafList: the leaf values of the tree returned.
func (n *NRun) leafList(g *Node, q retEdge) *Term {
	tv, _ := q.val.(*TupleVal)
	if tv == nil {
		return nil
	}
	sv, _ := tv.v[0].(*StructVal)
	if sv == nil {
		return nil
	}
	st := structOf(n.p.typ("", "lgTree"))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "leafValues" {
			return n.alive(g, sv.f[i])
		}
	}
	return nil
}

// wrong: the data of the tree are not those of a tree.
func (n *NRun) wrong(g *Node) *Node {
	out := bd.F
	seen := map[*Term]bool{}
	visit := func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch {
		case t.op == "nf" && n.kind == "text" && t.aux == "decision_type":
			out = or(out, and(bitOf(t, 2), bitOf(t, 3)))
		case t.op == "nf" && n.kind == "json" && t.aux == "json missing_type":
			out = or(out, not(anyOf(t, "None", "Zero", "NaN")))
		case t.op == "nf" && n.kind == "json" && t.aux == "json decision_type":
			out = or(out, not(anyOf(t, "==", "<=")))
		case t.op == "nf" && n.kind == "gbtree" && (t.aux == n.left || t.aux == n.right):
			out = or(out, le0(polyOf(add(t, intTerm(1)))))
		}
		return false
	}
	for _, a := range support(g) {
		findSub(a, visit)
		// a set without members
		if a.op == "eq0" {
			if t := soleTerm(a); t != nil && (utilCall(t, fnCount) || t.op == "len" && t.args[0].op == "call" && strings.HasPrefix(t.args[0].aux, "strings.Split")) {
				out = or(out, bd.atom(a))
			}
		}
		if n.kind == "sklearn" && a.op == "eq0" && n.shape(a, g) {
			out = or(out, not(bd.atom(a)))
		}
	}
	if n.kind == "gbtree" {
		if t := n.param(g, "NumRoots"); t != nil {
			out = or(out, not(eq0(polyOf(sub(t, intTerm(1))))))
		}
		if t := n.param(g, "NumNodes"); t != nil {
			out = or(out, le0(polyOf(t)))
		}
		if t := n.param(g, "NumFeature"); t != nil {
			out = or(out, not(le0(polyOf(sub(t, n.numFeatures())))))
		}
	}
	return out
}

func anyOf(t *Term, ss ...string) *Node {
	g := bd.F
	for _, s := range ss {
		g = or(g, eqStr(sc(t), s))
	}
	return g
}

// soleTerm: x of the atom x == 0.
func soleTerm(a *Term) *Term {
	ms := polyOf(a.args[0])
	if len(ms) == 1 && len(ms[0].fs) == 1 {
		return ms[0].fs[0]
	}
	return nil
}

// param: a number of the tree's header that g speaks about.
func (n *NRun) param(g *Node, name string) *Term {
	for _, a := range support(g) {
		if t := findSub(a, func(t *Term) bool {
			return t.op == "load" && t.args[0].op == "field" && t.args[0].aux == name || t.op == "fieldof" && t.aux == name
		}); t != nil {
			return t
		}
	}
	return nil
}

// numFeatures: the number of features of the model.
func (n *NRun) numFeatures() *Term {
	for i, q := range n.f.Params {
		if isInt(q.Type()) {
			return one(n.e.symParams(n.f)[i])
		}
	}
	panic(undecided("the number of features of the model in " + fname(n.f)))
}

// shape: a holds for a tree with one leaf more than inner nodes.
func (n *NRun) shape(a *Term, g *Node) bool {
	var sum [2]int64 // of the constant and of the number of leaves
	for _, m := range polyOf(a.args[0]) {
		switch {
		case len(m.fs) == 0:
			sum[0] += m.c
			continue
		case len(m.fs) > 1:
			return false
		}
		x := m.fs[0]
		switch s := x.String(); {
		case strings.HasSuffix(s, "Tree.NNodes"), strings.HasSuffix(s, "Tree.Nodes)"), strings.HasSuffix(s, "Tree.Values)"):
			sum[0] -= m.c
			sum[1] += 2 * m.c
		default:
			inner, ok := n.counting(x, g)
			if !ok {
				return false
			}
			sum[1] += m.c
			if inner {
				sum[0] -= m.c
			}
		}
	}
	return sum == [2]int64{}
}

// counting: X counts the leaves or the inner nodes of the tree.
func (n *NRun) counting(X *Term, g *Node) (inner, ok bool) {
	l, q := n.phiOf(X)
	if l == nil || one(q.init) == nil || !isZeroT(one(q.init)) {
		return
	}
	N := intTerm(0)
	back := n.node(l.back)
	var leaf *Node
	for _, a := range support(back) {
		findSub(a, func(t *Term) bool {
			if t.op == "len" && strings.HasSuffix(t.String(), "Tree.Nodes)") || strings.HasSuffix(t.String(), "Tree.NNodes") {
				N = t
			}
			return false
		})
	}
	if d, _ := n.e.doneAt(l, sc(N), g, back); !d {
		return
	}
	alts := altsOf(q.next)
	for _, a := range alts {
		for _, b := range support(n.node(a.g)) {
			if t := findSub(b, func(t *Term) bool { return t.op == "nf" && t.aux == n.left }); t != nil {
				if findSub(t, func(u *Term) bool { return u == n.term(l.iv) }) == nil {
					return
				}
				leaf = le0(polyOf(add(t, intTerm(1))))
			}
		}
	}
	if leaf == nil {
		return
	}
	for i, w := range []*Node{leaf, not(leaf)} {
		ok = true
		for _, a := range alts {
			ag := n.node(and(l.back, a.g))
			if unsat(ag) {
				continue
			}
			switch n.term(a.t) {
			case add(X, intTerm(1)):
				ok = ok && unsat(and(ag, not(w)))
			case X:
				ok = ok && unsat(and(ag, w))
			default:
				ok = false
			}
		}
		if ok {
			return i == 1, true
		}
	}
	return
}

// ruleSteps: the functions that read a part of a model report an error only
// when a step of theirs failed, or what is read is no model.
func ruleSteps(p *Program, c *Ctx) {
	skip := map[*ssa.Function]bool{}
	ls := p.modelLoaders()
	for _, f := range append(p.converters(), ls...) {
		skip[f] = true
	}
	step0, src := p.stepFn(), p.sourceFn()
	step := func(f *ssa.Function) bool {
		if f.Object() != nil && !f.Object().Exported() {
			for _, v := range f.Params {
				if isBoolT(v.Type()) {
					return false // told by its caller what was found
				}
			}
		}
		return step0(f)
	}
	for _, f := range p.reachable(ls) {
		f := f
		rel := strings.TrimPrefix(f.Package().Pkg.Path(), modPath)
		switch {
		case !errResult(f.Signature) || skip[f] || f.Parent() != nil || givesReader(f.Signature):
			continue
		case (rel == "/util" || rel == "/internal/xgbin") && step(f):
		case rel == "" && src(f):
		default:
			continue
		}
		c.guarded("step", f, func() {
			e, rets := p.runRoot(f, func(g *ssa.Function) bool { return g != f && (step(g) || g.Package() != f.Package()) })
			calls := false
			for _, x := range e.effects {
				if ci, ok := x.instr.(ssa.CallInstruction); ok && errResult(ci.Common().Signature()) {
					switch x.name {
					case "fmt.Errorf", "errors.New":
					default:
						calls = true
					}
				}
			}
			if !calls {
				return // a helper, judged where it is used
			}
			for _, q := range rets {
				g := and(q.g, not(errIsNil(lastVal(q.val))))
				if unsat(g) {
					continue
				}
				c.imply(and(g, splitFacts(g)), stepBad(e, g), "step", f, q.pos, fname(f)+" refuses what is a part of a model")
			}
		})
	}
	c.floor("step", 8)
}

// stepBad: a step failed, or the data are none that can be read.
func stepBad(e *Engine, g *Node) *Node {
	out := bd.F
	for _, a := range support(g) {
		switch a.op {
		case "isnil":
			if a.args[0].typ != nil && types.Identical(a.args[0].typ, errType) {
				out = or(out, not(bd.atom(a)))
			}
		case "has", "is":
			out = or(out, not(bd.atom(a)))
		case "eq0", "le0":
			// fewer bytes than asked for
			if findSub(a, func(t *Term) bool { return t.op == "res" && t.aux == "0" && isCall(t.args[0], readCalls...) }) != nil {
				out = or(out, not(bd.atom(a)))
				out = or(out, bd.atom(a))
			}
		}
		findSub(a, func(t *Term) bool {
			// a line with more than one =
			if t.op == "len" && isCall(t.args[0], "strings.Split", "strings.SplitN") {
				out = or(out, not(le0(polyOf(sub(t, intTerm(2))))))
			}
			if isCall(t, "strings.Count") {
				out = or(out, not(le0(polyOf(sub(t, intTerm(1))))))
			}
			return false
		})
	}
	return out
}

var readCalls = []string{"io.ReadFull", "io.ReadAtLeast", "(*bufio.Reader).Read", "(*bufio.Reader).Discard", "io.CopyN"}

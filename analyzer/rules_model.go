package main

// C16, C23: transformation, metadata and views of a loaded model.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// call evaluates a method of the model that a loader returns, at the moment
// it is returned.
func (r *LRun) call(q retEdge, recv *Term, t types.Type, name string) Val {
	fn := r.p.methodOf(t, name)
	if fn == nil {
		panic(undecided("no method " + name))
	}
	ps := r.e.symParams(fn)
	ps[0] = sc(recv)
	g := and(q.g, errIsNil(lastVal(q.val)))
	n := len(r.e.effects)
	v, _, _, _ := r.e.Run(fn, ps, g, q.st.clone())
	r.e.effects = r.e.effects[:n]
	return r.val(r.alive(q, v))
}

// eqInt: the alternatives of v that can occur under g equal want.
func (c *Ctx) eqInt(r *LRun, g *Node, v, want Val, rule string, pos token.Pos, what string) {
	c.imply(g, r.cmp(token.EQL, v, want), rule, r.f, pos, what)
}

// eqStr: value of a string result.
func eqStr(v Val, s string) *Node {
	n := bd.F
	for _, a := range altsOf(v) {
		n = or(n, and(a.g, genEq(a.t, strTerm(s))))
	}
	return n
}

func (r *LRun) subst(name, val string) *rewriter {
	key := r.s(name)
	return newRewriter(func(t *Term) *Term {
		if t == key {
			return strTerm(val)
		}
		return foldStr(t)
	})
}

func wval(w *rewriter, v Val) Val {
	var gs []*Node
	var vs []Val
	for _, a := range altsOf(v) {
		gs = append(gs, w.node(a.g))
		vs = append(vs, sc(w.term(a.t)))
	}
	return mergeVals(gs, vs)
}

func ruleMeta(p *Program, c *Ctx) {
	pe := types.NewPointer(p.shape().ensT)
	p.eachLoader(c, "metadata", func(r *LRun, ok, bad []lret) {
		for _, s := range ok {
			ens, _, _ := r.model(s.q)
			pos := s.q.pos
			fs := sc(r.features())
			c.eqInt(r, and(s.g, r.cmp(token.GEQ, fs, sc(intTerm(0)))), r.call(s.q, ens, pe, "NFeatures"), fs, "metadata", pos, "the number of features is not the one the file states")
			c.eqInt(r, s.g, r.call(s.q, ens, pe, "NRawOutputGroups"), r.groups(), "metadata", pos, "the number of raw outputs is not the one the file states")
			c.eqInt(r, s.g, r.call(s.q, ens, pe, "NOutputGroups"), r.groups(), "metadata", pos, "the number of outputs is not the one the file states")
			nm := r.call(s.q, ens, pe, "Name")
			name := func(g *Node, v Val, want string) {
				if c.must(!unsat(g), "metadata", r.f, pos, "no model of type %s can be loaded", want) {
					c.imply(g, eqStr(v, want), "metadata", r.f, pos, "the name of a model of type "+want+" is wrong")
				}
			}
			switch r.kind {
			case "text":
				// files with fixed header strings, so that the tests on them fold
				name(and(s.g, r.avg()), nm, "lightgbm.rf")
				name(and(s.g, not(r.avg())), nm, "lightgbm.gbdt")
				_, obj, typ := r.model(s.q)
				f := fieldBy(typ, isBoolT)
				if c.must(f != nil, "metadata", r.f, pos, "the averaging flag of the model") {
					b := asBool(r.alive(s.q, r.e.loadVal(s.q.st, fieldAddr(obj, f.Name(), f.Type()), f.Type())))
					okE, cx := equivTh(r.node(b), r.avg(), s.g)
					c.must(okE, "metadata", r.f, pos, "averaging differs from average_output in the file @@when %s", cut(litsStr(cx), 300))
				}
			case "json":
				name(s.g, nm, "lightgbm.gbdt")
			case "gbtree":
				for _, n := range []string{"gbtree", "dart"} {
					w := r.subst("H.NameGbm", n)
					name(w.node(s.g), wval(w, nm), "xgboost."+n)
				}
			case "gblinear":
				w := r.subst("H.NameGbm", "gblinear")
				name(w.node(s.g), wval(w, nm), "xgboost.gblinear")
			case "sklearn":
				name(s.g, nm, "sklearn.ensemble.GradientBoostingClassifier")
			}
			if r.kind != "text" {
				_, obj, typ := r.model(s.q)
				if f := fieldBy(typ, isBoolT); f != nil {
					b := asBool(r.alive(s.q, r.e.loadVal(s.q.st, fieldAddr(obj, f.Name(), f.Type()), f.Type())))
					c.imply(s.g, not(r.node(b)), "metadata", r.f, pos, "the model averages although the file does not state it")
				}
			}
		}
	})
	// every model type: what its methods report
	for _, w := range p.worlds() {
		w := w
		c.guarded("metadata", nil, func() {
			e := p.engine()
			get := func(name string) Val {
				fn := p.methodOf(pe, name)
				if fn == nil {
					panic(undecided("no method " + name))
				}
				v, _, _, _ := e.Run(fn, []Val{sc(w.ens)}, bd.T, w.st.clone())
				return v
			}
			onModel := func(name string) Val {
				fn := p.methodOf(w.modelT, name)
				if fn == nil {
					panic(undecided("no method " + name))
				}
				ps := e.symParams(fn)
				if _, isP := w.modelT.(*types.Pointer); isP {
					ps[0] = sc(w.inner)
				} else {
					ps[0] = symVal(w.inner, w.modelT)
				}
				v, _, _, _ := e.Run(fn, ps, bd.T, w.st.clone())
				return v
			}
			f := p.fn("", "Ensemble.NEstimators")
			I := types.Typ[types.Int]
			eqI := func(a, b Val) bool {
				ok, _ := entails(bd.T, cmpInt(token.EQL, e, a, b))
				return ok
			}
			for _, n := range []string{"NFeatures", "NRawOutputGroups", "NEstimators"} {
				c.must(eqI(get(n), onModel(n)), "reported", f, f.Pos(), "%s: %s of the ensemble is not that of its model", w.name, n)
			}
			nm, nm2 := get("Name"), onModel("Name")
			c.must(toTerm(nm) == toTerm(nm2), "reported", f, f.Pos(), "%s: the name of the ensemble is not that of its model", w.name)
			trT := p.shape().transImpl
			for _, t := range trT {
				if baseName(t) != w.trans {
					continue
				}
				v, _ := p.runM(e, w.tr, t, "NOutputGroups")
				c.must(eqI(get("NOutputGroups"), v), "reported", f, f.Pos(), "%s: the number of outputs is not that of the transformation", w.name)
			}
			tf := fieldBy(w.modelT, p.isTreeList)
			if tf == nil {
				c.must(eqI(get("NEstimators"), sc(intTerm(1))), "reported", f, f.Pos(), "%s: a model without trees has not one estimator", w.name)
				return
			}
			L := one(e.loadVal(w.st, fieldAddr(w.inner, tf.Name(), tf.Type()), tf.Type()))
			if L == nil {
				panic(undecided("the list of trees"))
			}
			c.must(eqI(get("NEstimators"), e.binop(token.QUO, sc(lenTerm(L)), get("NRawOutputGroups"), I, I)), "reported", f, f.Pos(), "%s: the number of estimators is not trees divided by outputs", w.name)
		})
	}
	p.leafCounts(c)
	c.floor("metadata", 40)
	c.floor("reported", 50)
}

// leafCounts: NLeaves lists the leaves of the trees, all estimators of the
// first output first.
func (p *Program) leafCounts(c *Ctx) {
	s := p.shape()
	lt := p.typ("", "lgTree")
	for _, m := range s.models {
		m := m
		fn := p.methodOf(m, "NLeaves")
		if fn == nil {
			continue
		}
		c.guarded("leafcounts", fn, func() {
			e := p.engine()
			leafFn := p.fn("", "lgTree.nLeaves")
			e.opaque = func(g *ssa.Function) bool { return g == leafFn }
			v, _, _, rets := e.Run(fn, e.symParams(fn), bd.T, newState())
			tf := fieldBy(m, p.isTreeList)
			L := one(v)
			if L == nil || len(rets) != 1 {
				panic(undecided("the list of leaf counts"))
			}
			if tf == nil {
				okL, _ := entails(bd.T, cmpInt(token.EQL, e, sc(lenTerm(L)), sc(intTerm(0))))
				if !okL {
					// one count per output, each 0 or 1
					okL = L.op == "make"
				}
				c.must(okL, "leafcounts", fn, fn.Pos(), "a model without trees lists leaves")
				return
			}
			I := types.Typ[types.Int]
			recv := one(e.symParams(fn)[0])
			trees := one(e.loadVal(newState(), fieldAddr(recv, tf.Name(), tf.Type()), tf.Type()))
			G, _ := p.runM(e, recv, m, "NRawOutputGroups")
			E, _ := p.runM(e, recv, m, "NEstimators")
			parts, sz, why := e.buildOf(L)
			if !c.must(why == "" && len(parts) == 1, "leafcounts", fn, fn.Pos(), "how leaf counts are listed @@%s", why) {
				return
			}
			q := parts[0]
			var val *Term
			if q.val != nil {
				val = one(q.val)
			} else if len(q.el) == 1 {
				val = q.el[0]
			}
			if val == nil {
				panic(undecided("a leaf count"))
			}
			// the tree that is counted
			ix := findSub(val, func(t *Term) bool { return t.op == "index" && t.args[0] == trees })
			isCount := val.op == "res" || val.op == "call" || val.op == "ext"
			if ix == nil {
				// inlined or passed through a call
				for _, x := range e.effects {
					if x.fn == leafFn && x.res != nil && one(x.res) == val {
						a := one(x.args[0])
						ix = findSub(a, func(t *Term) bool { return t.op == "index" && t.args[0] == trees })
						isCount = ix == a || a != nil && a.op == "load" && a.args[0] == ix || ix != nil
					}
				}
			}
			if !c.must(ix != nil && isCount, "leafcounts", fn, q.x.pos, "a count is not that of one tree @@%v", val) {
				return
			}
			_ = lt
			ls := q.x.loops
			if len(ls) == 1 {
				// one loop over the positions of the list
				n := e.binop(token.MUL, G, E, I, I)
				ok1, w1 := e.doneAt(ls[0], n, rets[0].g, ls[0].back)
				if !ok1 {
					ok1, w1 = e.doneAt(ls[0], sc(lenTerm(trees)), rets[0].g, ls[0].back)
				}
				if !c.must(ok1, "leafcounts", fn, q.x.pos, "counts are not listed for every output and estimator @@%s", w1) {
					return
				}
				i := sc(ls[0].iv)
				tree := e.binop(token.ADD, e.binop(token.MUL, e.binop(token.REM, i, E, I, I), G, I, I), e.binop(token.QUO, i, E, I, I), I, I)
				okT, _ := entails(q.x.guard, cmpInt(token.EQL, e, sc(ix.args[1]), tree))
				c.must(okT, "leafcounts", fn, q.x.pos, "a count belongs to another tree @@%v", ix.args[1])
				okP := true
				if q.idx != nil {
					okP, _ = entails(q.x.guard, cmpInt(token.EQL, e, sc(q.idx), i))
				}
				c.must(okP, "leafcounts", fn, q.x.pos, "a count is listed at another position than output*estimators+estimator")
				okU, _ := entails(ls[0].back, q.x.guard)
				if q.idx != nil {
					okS, _ := entails(bd.T, cmpInt(token.EQL, e, sc(sz), n))
					okL, _ := entails(bd.T, cmpInt(token.EQL, e, sc(sz), sc(lenTerm(trees))))
					okU = okU && (okS || okL)
				}
				c.must(okU, "leafcounts", fn, q.x.pos, "a tree is left out")
				return
			}
			if !c.must(len(ls) == 2, "leafcounts", fn, q.x.pos, "counts are not listed by output and estimator") {
				return
			}
			o, in := ls[0], ls[1]
			ok1, w1 := e.doneAt(o, G, rets[0].g, o.back)
			ok2, w2 := e.doneAt(in, E, o.back, in.back)
			sw := false
			if !ok1 || !ok2 {
				// estimators outside, outputs inside: positions decide
				ok1, w1 = e.doneAt(o, E, rets[0].g, o.back)
				ok2, w2 = e.doneAt(in, G, o.back, in.back)
				sw = true
			}
			if !c.must(ok1 && ok2, "leafcounts", fn, q.x.pos, "counts are not listed for every output and estimator @@%s %s", w1, w2) {
				return
			}
			g, es := o.iv, in.iv
			if sw {
				g, es = in.iv, o.iv
			}
			at := func(a, k Val, b *Term) Val {
				return e.binop(token.ADD, e.binop(token.MUL, a, k, I, I), sc(b), I, I)
			}
			tree := at(sc(es), G, g)
			okT, _ := entails(q.x.guard, cmpInt(token.EQL, e, sc(ix.args[1]), tree))
			c.must(okT, "leafcounts", fn, q.x.pos, "a count belongs to another tree @@%v", ix.args[1])
			var posn Val
			if q.idx != nil {
				posn = sc(q.idx)
			} else if !sw {
				posn = at(sc(g), E, es)
			}
			want := at(sc(g), E, es)
			okP := false
			if posn != nil {
				okP, _ = entails(q.x.guard, cmpInt(token.EQL, e, posn, want))
			}
			c.must(okP, "leafcounts", fn, q.x.pos, "a count is listed at another position than output*estimators+estimator")
			if q.idx == nil {
				okU, _ := entails(in.back, q.x.guard)
				c.must(okU, "leafcounts", fn, q.x.pos, "a tree is left out")
			} else {
				okS, _ := entails(bd.T, cmpInt(token.EQL, e, sc(sz), e.binop(token.MUL, G, E, I, I)))
				okL, _ := entails(bd.T, cmpInt(token.EQL, e, sc(sz), sc(lenTerm(trees))))
				okU, _ := entails(in.back, q.x.guard)
				c.must((okS || okL) && okU, "leafcounts", fn, q.x.pos, "the list of counts has another length")
			}
		})
	}
	c.floor("leafcounts", 6)
}

// ruleTransChoice (C16)
func ruleTransChoice(p *Program, c *Ctx) {
	sh := p.shape()
	p.eachLoader(c, "choice", func(r *LRun, ok, bad []lret) {
		kinds := map[*Term]string{}
		sizes := map[*Term]Val{}
		for _, s := range ok {
			pos := s.q.pos
			ens, _, _ := r.model(s.q)
			tv := r.alive(s.q, r.e.loadVal(s.q.st, fieldAddr(ens, sh.transF.Name(), sh.transF.Type()), sh.transF.Type()))
			for _, a := range altsOf(tv) {
				if a.t.op != "iface" {
					panic(undecided("the transformation of the returned model"))
				}
				io := a.t.obj.(*ifaceObj)
				kinds[a.t] = p.kindOf(p.engine(), io.typ)
				o := one(io.val)
				if o == nil {
					o = toTerm(io.val)
				}
				sizes[a.t] = r.call(s.q, o, io.typ, "NOutputGroups")
			}
			check := func(w *rewriter, g *Node, kind, what string) {
				if !c.must(!unsat(g), "choice", r.f, pos, "no such model can be loaded: %s", what) {
					return
				}
				for _, a := range altsOf(tv) {
					ga := and(g, w.node(r.node(a.g)))
					if _, sat := satTheory(ga); !sat {
						continue
					}
					c.must(kinds[a.t] == kind, "choice", r.f, pos, "%s: the transformation is %s instead of %s", what, kinds[a.t], kind)
					c.imply(ga, r.cmp(token.EQL, wval(w, sizes[a.t]), r.groups()), "choice", r.f, pos, what+": the transformation has another number of outputs")
				}
			}
			id := newRewriter(func(*Term) *Term { return nil })
			switch r.kind {
			case "text":
				// the model may only be reachable with certain files; each in turn
				raw := and(s.g, or(not(r.load), r.avg()))
				check(id, raw, "Raw", "no transformation is requested, or the model averages")
				for _, o := range lgKnown {
					w := r.with(o.s)
					g := and(w.node(s.g), r.load, not(r.avg()), r.has("objective"))
					check(w, g, o.kind, "objective '"+o.s+"'")
				}
			case "gbtree", "gblinear":
				check(id, and(s.g, not(r.load)), "Raw", "no transformation is requested")
				w := r.subst("H.NameObj", "binary:logistic")
				check(w, and(w.node(s.g), r.load), "Logistic", "objective 'binary:logistic'")
			default:
				check(id, s.g, "Raw", "models of this format")
			}
		}
	})
	p.views(c)
	c.floor("choice", 50)
}

// views: raw and leaf-index views of a model.
func (p *Program) views(c *Ctx) {
	sh := p.shape()
	pe := types.NewPointer(sh.ensT)
	I := types.Typ[types.Int]
	for _, v := range []struct{ name, kind string }{{"EnsembleWithRawPredictions", "Raw"}, {"EnsembleWithLeafPredictions", "LeafIndex"}} {
		fn := p.fn("", "Ensemble."+v.name)
		for _, w := range p.worlds() {
			w := w
			c.guarded("views", fn, func() {
				e := p.engine()
				res, _, st, _ := e.Run(fn, []Val{sc(w.ens)}, bd.T, w.st.clone())
				ens := one(res)
				if ens == nil {
					panic(undecided("the view"))
				}
				for _, x := range e.effects {
					if x.kind == "store" && x.addr != nil && rootOf(x.addr).op != "alloc" {
						c.must(false, "views", fn, x.pos, "%s: taking a view changes the model", w.name)
					}
				}
				run := func(recv *Term, s *State, name string) Val {
					f := p.methodOf(pe, name)
					v, _, _, _ := e.Run(f, []Val{sc(recv)}, bd.T, s.clone())
					return v
				}
				// the same model underneath
				cur, why := ens, ""
				for k := 0; ; k++ {
					m := one(e.loadVal(st, fieldAddr(cur, sh.modelF.Name(), sh.modelF.Type()), sh.modelF.Type()))
					if m == nil || m.op != "iface" || k > 5 {
						why = "the model of the view"
						break
					}
					io := m.obj.(*ifaceObj)
					o := one(io.val)
					if o == nil {
						o = toTerm(io.val)
					}
					if types.Identical(io.typ, pe) {
						cur = o
						continue
					}
					if o != w.inner {
						why = "another model"
					}
					break
				}
				c.must(why == "", "views", fn, fn.Pos(), "%s: the view does not use the same model @@%s", w.name, why)
				t := one(e.loadVal(st, fieldAddr(ens, sh.transF.Name(), sh.transF.Type()), sh.transF.Type()))
				if t == nil || t.op != "iface" {
					panic(undecided("the transformation of the view"))
				}
				k := p.kindOf(p.engine(), t.obj.(*ifaceObj).typ)
				c.must(k == v.kind, "views", fn, fn.Pos(), "%s: the transformation of the view is %s", w.name, k)
				want := run(w.ens, w.st, "NRawOutputGroups")
				if v.kind == "LeafIndex" {
					want = e.binop(token.MUL, want, run(w.ens, w.st, "NEstimators"), I, I)
				}
				ok, _ := entails(bd.T, cmpInt(token.EQL, e, run(ens, st, "NOutputGroups"), want))
				c.must(ok, "views", fn, fn.Pos(), "%s: the view has another number of outputs", w.name)
				for _, n := range []string{"NFeatures", "NRawOutputGroups", "NEstimators"} {
					ok, _ := entails(bd.T, cmpInt(token.EQL, e, run(ens, st, n), run(w.ens, w.st, n)))
					c.must(ok, "views", fn, fn.Pos(), "%s: %s of the view differs from that of the model", w.name, n)
				}
			})
		}
	}
	c.floor("views", 200)
}

func init() {
	reg("C16", ruleTransChoice, symText+"Rule: the type and size of the transformation stored in the returned model, for every objective string under which the loader can succeed; for views, the innermost model, the transformation and its size, for every model type.", asmInts)
	reg("C23", ruleMeta, symText+"Rule: each metadata method, evaluated on the model at the moment it is returned, equals the field of the file (modulo integer conversions); on every model type the ensemble's methods equal the model's, and estimators are trees divided by outputs.", asmInts)
}

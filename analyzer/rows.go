package main

// Predictions as rows: which row of the input each store of the output
// belongs to, for every entry point, model and transformation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// transformation kinds by the exported constants of the package
func (p *Program) kindOf(e *Engine, tr types.Type) string {
	f := e.prog.LookupMethod(tr, nil, "Type")
	v, _, _, _ := e.Run(f, e.symParams(f), bd.T, newState())
	t := toTerm(v)
	n, ok := t.intVal()
	if !ok {
		panic(undecided("Type() of " + tr.String() + " is not a constant"))
	}
	sc := p.pkgs["transformation"].Pkg.Scope()
	for _, name := range []string{"Raw", "Logistic", "Softmax", "LeafIndex", "Exponential"} {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok {
			panic(undecided("constant transformation." + name))
		}
		if k, ok := constInt(c); ok && k == n {
			return name
		}
	}
	panic(undecided("unknown transformation kind of " + tr.String()))
}

func constInt(c *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(c.Val()))
}

type ERun struct {
	w        *World
	kind     string
	entry    string
	fn       *ssa.Function
	e        *Engine
	ps       []Val
	effs     []*Effect
	rets     []retEdge
	g        *Node
	res      Val
	assume   *Node
	G, O     *Term // raw and output groups
	E, F     Val   // estimators and features
	n        Val   // estimators to use, per the specification
	result   *Term // base of the result slice
	nRows    *Term
	rows     []*Row
	loadErr  string
	constant bool // PredictSingle: no value is ever computed
}

type Row struct {
	run    *ERun
	gor    int
	loop   *LoopInst // innermost loop whose iterations are different rows
	r      *Term
	reads  []*Effect // tree evaluations (or stores that read features)
	stores []*Effect
	tcalls []*Effect
	fills  []*Effect
	scr    *Term // scratch row (sparse input)
}

func method(p *Program, e *Engine, w *World, name string) Val {
	f := p.fn("", "Ensemble."+name)
	v, _, _, _ := e.Run(f, append([]Val{sc(w.ens)}, e.symParams(f)[1:]...), bd.T, w.st.clone())
	return v
}

func one(v Val) *Term {
	s, ok := v.(*Scalar)
	if !ok || len(s.alts) != 1 {
		return nil
	}
	return s.alts[0].t
}

// prepare fixes the sizes of the transformation as the loaders establish them
// and returns the world's facts.
func (p *Program) prepare(w *World, e *Engine) (kind string, G, O *Term, E, F Val, assume *Node) {
	kind = p.kindOf(e, p.trType(w))
	G = one(method(p, e, w, "NRawOutputGroups"))
	if G == nil {
		panic(undecided("NRawOutputGroups has several values"))
	}
	set := func(addr, v *Term) {
		if addr.op == "load" {
			w.st.heap[addr.args[0]] = sc(v)
		}
	}
	O = one(method(p, e, w, "NOutputGroups"))
	if O == nil {
		panic(undecided("NOutputGroups has several values"))
	}
	switch kind {
	case "Logistic", "Exponential":
		set(G, intTerm(1))
		G = intTerm(1)
	}
	E = method(p, e, w, "NEstimators")
	switch kind {
	case "Raw", "Softmax":
		set(O, G)
		O = G
	case "LeafIndex":
		et := one(E)
		if et == nil {
			panic(undecided("NEstimators has several values"))
		}
		set(O, mul(G, et))
		O = mul(G, et)
	}
	F = method(p, e, w, "NFeatures")
	O2 := one(method(p, e, w, "NOutputGroups"))
	if O2 != O {
		panic(undecided(fmt.Sprintf("output groups of %s: %v, expected %v", w.name, O2, O)))
	}
	assume = bd.T
	if _, isC := G.intVal(); !isC {
		assume = and(assume, not(le0(polyOf(G))))
	}
	if et := one(E); et != nil {
		if _, isC := et.intVal(); !isC {
			assume = and(assume, le0(polyScale(polyOf(et), -1)))
		}
	}
	return
}

func (p *Program) trType(w *World) types.Type {
	for _, t := range p.shape().transImpl {
		if baseName(t) == w.trans {
			return t
		}
	}
	return nil
}

// transformMethods: the Transform methods of the transformations.
func (p *Program) isTransform(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/transformation" || fn.Name() != "Transform" || fn.Signature.Recv() == nil {
		return false
	}
	return fn.Signature.Params().Len() == 3
}

var runCache = map[string]*ERun{}

func (p *Program) ensembleRun(w *World, entry string) *ERun {
	key := w.name + "|" + entry
	if r, ok := runCache[key]; ok {
		return r
	}
	r := &ERun{w: w, entry: entry}
	r.e = p.engine()
	e := r.e
	r.kind, r.G, r.O, r.E, r.F, r.assume = p.prepare(w, e)
	e = p.engine()
	r.e = e
	e.opaque = func(f *ssa.Function) bool { return p.treeFn(f) || p.isTransform(f) }
	e.writesArg = p.effects().writesArg
	r.fn = p.fn("", "Ensemble."+entry)
	r.ps = e.symParams(r.fn)
	r.ps[0] = sc(w.ens)
	r.res, r.g, _, r.rets = e.Run(r.fn, r.ps, r.assume, w.st.clone())
	r.effs = e.effects
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	pi := map[string]int{"PredictSingle": 2, "Predict": 2, "PredictCSR": 5, "PredictDense": 5}[entry]
	if pi >= len(r.ps) {
		panic(undecided("parameters of " + entry))
	}
	np := r.ps[pi]
	pos := asBool(e.binop(token.GTR, np, sc(intTerm(0)), I, B))
	lt := asBool(e.binop(token.LSS, np, r.E, I, B))
	use := and(pos, lt)
	r.n = mergeCare([]*Node{use, not(use)}, []Val{np, r.E}, bd.T)
	if r.w.model != "" && one(r.E) != nil {
		if k, ok := one(r.E).intVal(); ok && k == 1 {
			r.n = sc(intTerm(1))
		}
	}
	switch entry {
	case "Predict":
		r.result = one(r.ps[3])
		r.nRows = intTerm(1)
	case "PredictCSR":
		r.result = one(r.ps[4])
		r.nRows = sub(lenTerm(one(r.ps[1])), intTerm(1))
	case "PredictDense":
		r.result = one(r.ps[4])
		r.nRows = one(r.ps[2])
	case "PredictSingle":
		r.nRows = intTerm(1)
		// the result is read back from a local array
		for _, rt := range r.rets {
			for _, a := range altsOf(rt.val) {
				if a.t.op == "load" && a.t.args[0].op == "index" {
					r.result = a.t.args[0].args[0]
				}
			}
		}
		if r.result == nil {
			// value kept in a scalar: find the Transform target
			for _, x := range r.effs {
				if x.kind == "call" && x.fn != nil && p.isTransform(x.fn) {
					t := toTerm(x.args[2])
					for t.op == "slice" {
						t = t.args[0]
					}
					r.result = t
				}
			}
		}
		if r.result == nil {
			// nothing is computed: every return is a fixed value
			r.constant = true
			for _, rt := range r.rets {
				if unsat(and(rt.g, r.assume)) {
					continue
				}
				for _, a := range altsOf(rt.val) {
					if _, c := a.t.floatVal(); !c && !unsat(and(a.g, r.assume)) {
						r.constant = false
					}
				}
			}
			if r.constant {
				r.result = fresh("none", "", nil)
				r.findRows(p)
				runCache[key] = r
				return r
			}
		}
		if r.result == nil {
			panic(undecided("the value PredictSingle returns is not read from a result buffer"))
		}
	}
	r.findRows(p)
	runCache[key] = r
	return r
}

func (r *ERun) features() *Term { // the feature values argument
	switch r.entry {
	case "PredictCSR":
		return one(r.ps[3])
	}
	return one(r.ps[1])
}

func sliceBase(t *Term) (base, lo, hi *Term) {
	if t.op == "slice" {
		return t.args[0], t.args[1], t.args[2]
	}
	return t, intTerm(0), lenTerm(t)
}

// indexLoads collects the loads of elements of base below t.
func indexLoads(t, base *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "load" && t.args[0].op == "index" && t.args[0].args[0] == base {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.poly {
			for _, f := range m.fs {
				rec(f)
			}
		}
		if t.op == "gv" {
			for _, a := range t.obj.(*Scalar).alts {
				rec(a.t)
			}
		}
	}
	rec(t)
	return out
}

func valTerms(v Val) []*Term {
	var out []*Term
	switch x := v.(type) {
	case *Scalar:
		for _, a := range x.alts {
			out = append(out, a.t)
		}
	case BoolVal:
		out = append(out, boolTerm(x.n))
	case *StructVal:
		for _, f := range x.f {
			out = append(out, valTerms(f)...)
		}
	case *TupleVal:
		for _, f := range x.v {
			out = append(out, valTerms(f)...)
		}
	}
	return out
}

// fillLoop: store puts vals[j] of the sparse row into a scratch row. Returns
// the row number and the loop over the row's entries.
func (r *ERun) fillRow(x *Effect) (row *Term, jl *LoopInst, why string) {
	vals, cols, indptr := one(r.ps[3]), one(r.ps[2]), one(r.ps[1])
	v := one(x.val)
	if v == nil || v.op != "load" || v.args[0].op != "index" || v.args[0].args[0] != vals {
		return nil, nil, "the value stored is not one explicit value of the row"
	}
	j := v.args[0].args[1]
	// column: scratch[cols[j]]
	c := x.addr.args[1]
	if c.op != "load" || c.args[0].op != "index" || c.args[0].args[0] != cols || c.args[0].args[1] != j {
		return nil, nil, fmt.Sprintf("vals[%v] is stored at %v, not at cols[%v]", j, c, j)
	}
	for i := len(x.loops) - 1; i >= 0; i-- {
		l := x.loops[i]
		co, start, ok := linearIn(j, l.iv)
		if !ok {
			continue
		}
		n, isC := co.intVal()
		if !isC || n == 0 {
			continue
		}
		jl = l
		if n != 1 {
			return nil, nil, "entries of a row are visited with a stride"
		}
		if start.op != "load" || start.args[0].op != "index" || start.args[0].args[0] != indptr {
			return nil, nil, fmt.Sprintf("the entries of a row start at %v instead of an entry of indptr", start)
		}
		row = start.args[0].args[1]
		end := mkTerm("load", start.aux, start.typ, indexAddr(indptr, add(row, intTerm(1)), types.Typ[types.Int]))
		if ok, w := r.e.isTrip(l, sc(sub(end, start)), r.assume); !ok {
			return nil, nil, "the entries visited do not end at the row's next pointer: " + w
		}
		return row, jl, ""
	}
	return nil, nil, "no loop over the entries of a row"
}

func (r *ERun) isFill(x *Effect) bool {
	if r.entry != "PredictCSR" || x.kind != "store" || x.addr.op != "index" || x.addr.args[0] == r.result {
		return false
	}
	vals, cols := one(r.ps[3]), one(r.ps[2])
	fixed := true // only constants are stored: a reset
	for _, a := range altsOf(x.val) {
		if _, c := a.t.floatVal(); !c && a.t.op != "nan" {
			fixed = false
		}
	}
	if len(indexLoads(x.addr.args[1], cols)) > 0 && !fixed {
		return true
	}
	for _, t := range valTerms(x.val) {
		if len(indexLoads(t, vals)) > 0 && isFreshRoot(rootOf(x.addr)) {
			return true
		}
	}
	return false
}

// findRows groups the effects of the run by the row they work on.
func (r *ERun) findRows(p *Program) {
	e := r.e
	feats := r.features()
	fills := map[*Term][]*Effect{}
	for _, x := range r.effs {
		if r.isFill(x) {
			fills[x.addr.args[0]] = append(fills[x.addr.args[0]], x)
		}
	}
	rowOf := func(x *Effect, base, lo *Term) (*Term, *Term) {
		switch r.entry {
		case "Predict", "PredictSingle":
			if base == feats {
				return intTerm(0), nil
			}
		case "PredictDense":
			if base == feats {
				q, _, ok := polyDivBy(lo, one(r.ps[3]))
				if ok {
					return q, nil
				}
			}
		case "PredictCSR":
			for _, f := range fills[base] {
				if f.gor != x.gor {
					continue
				}
				if row, _, why := r.fillRow(f); why == "" {
					return row, base
				}
			}
			if len(fills[base]) > 0 {
				_, _, why := r.fillRow(fills[base][0])
				r.loadErr = why
			}
		}
		return nil, nil
	}
	type key struct {
		gor  int
		loop *LoopInst
		r    *Term
	}
	byKey := map[key]*Row{}
	get := func(x *Effect, row, scr *Term) *Row {
		var loop *LoopInst
		for i := len(x.loops) - 1; i >= 0; i-- {
			if e.variant(x.loops[i], row) {
				loop = x.loops[i]
				break
			}
		}
		k := key{x.gor, loop, row}
		g := byKey[k]
		if g == nil {
			g = &Row{run: r, gor: x.gor, loop: loop, r: row, scr: scr}
			byKey[k] = g
			r.rows = append(r.rows, g)
		}
		return g
	}
	for _, x := range r.effs {
		if x.kind == "call" && x.fn != nil && p.treeFn(x.fn) {
			var ft *Term
			for i, q := range x.fn.Params {
				if sl, ok := q.Type().(*types.Slice); ok && isFloat(sl.Elem()) {
					ft = toTerm(x.args[i])
				}
			}
			base, lo, _ := sliceBase(ft)
			row, scr := rowOf(x, base, lo)
			if row == nil {
				if r.loadErr == "" {
					r.loadErr = fmt.Sprintf("a tree is evaluated on %v, which is not a row of the input", ft)
				}
				continue
			}
			g := get(x, row, scr)
			g.reads = append(g.reads, x)
		}
		if x.kind == "store" && !r.isFill(x) {
			for _, t := range r.reach(valTerms(x.val)) {
				seen := false
				bases := []*Term{feats}
				for b := range fills {
					bases = append(bases, b)
				}
				for _, b := range bases {
					if r.entry == "PredictCSR" && b == feats {
						continue
					}
					for _, l := range indexLoads(t, b) {
						row, scr := rowOf(x, b, l.args[0].args[1])
						if row == nil {
							if r.loadErr == "" {
								r.loadErr = fmt.Sprintf("%v is not an element of a row of the input", l)
							}
							continue
						}
						if !seen {
							g := get(x, row, scr)
							g.reads = append(g.reads, x)
							seen = true
						}
					}
				}
			}
		}
	}
	for _, g := range r.rows {
		for b, fs := range fills {
			if b != g.scr {
				continue
			}
			for _, f := range fs {
				if f.gor == g.gor && inLoop(f, g.loop) {
					g.fills = append(g.fills, f)
				}
			}
		}
		for _, x := range r.effs {
			if x.gor != g.gor || !inLoop(x, g.loop) {
				continue
			}
			if x.kind == "store" && x.addr.op == "index" && !r.isFill(x) {
				g.stores = append(g.stores, x)
			}
			if x.kind == "call" && x.fn != nil && p.isTransform(x.fn) {
				g.tcalls = append(g.tcalls, x)
			}
		}
	}
}

// reach adds what the sums kept in variables are made of.
func (r *ERun) reach(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		findSub(t, func(y *Term) bool {
			if y.op != "phi" && y.op != "mem" {
				return false
			}
			if pl := r.phiOf(y); pl != nil {
				if pl.info.addr != nil && rootOf(pl.info.addr) == r.result {
					return false
				}
				for _, z := range append(valTerms(pl.info.init), valTerms(pl.info.next)...) {
					rec(z)
				}
			}
			return false
		})
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

func inLoop(x *Effect, l *LoopInst) bool {
	if l == nil {
		return true
	}
	for _, o := range x.loops {
		if o == l {
			return true
		}
	}
	return false
}

func loopsAfter(x *Effect, l *LoopInst) []*LoopInst {
	if l == nil {
		return x.loops
	}
	for i, o := range x.loops {
		if o == l {
			return x.loops[i+1:]
		}
	}
	return nil
}

func ivsOf(ls []*LoopInst) []*Term {
	var out []*Term
	for i := len(ls) - 1; i >= 0; i-- {
		out = append(out, ls[i].iv)
	}
	return out
}

func (r *ERun) tag() string { return fmt.Sprintf("%s on %s", r.entry, r.w.name) }

func (g *Row) where() string {
	if g.gor != 0 {
		return "worker"
	}
	return "serial"
}

// isResult: the store changes the caller's result buffer.
func (r *ERun) isResult(x *Effect) bool {
	return x.kind == "store" && rootOf(x.addr) == r.result
}

func errIsNil(v Val) *Node {
	tv, ok := v.(*TupleVal)
	if ok {
		v = tv.v[len(tv.v)-1]
	}
	g := bd.F
	for _, a := range altsOf(v) {
		if a.t == nilTerm {
			g = or(g, a.g)
		} else if a.t.op != "errval" {
			g = or(g, and(a.g, isNil(a.t)))
		}
	}
	return g
}

func hasPfx(s string, p ...string) bool {
	for _, x := range p {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

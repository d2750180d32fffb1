package main

// The abstract interpreter: one forward pass per function over its control
// flow graph, joining at merge points, inlining the module's own callees, with
// loops summarised by induction variables and havoc of what they write.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopInst struct {
	id     string
	fn     *ssa.Function
	pos    token.Pos
	outer  []*LoopInst
	iv     *Term
	entry  *Node   // guard on entry
	back   *Node   // guard of taking a back edge (in terms of one iteration)
	exits  []*Node // guards of the exit edges (in terms of one iteration)
	exitTo []string
	phis   []*PhiInfo
	mem    []*PhiInfo // loop-carried memory cells
	gor    int
}

type PhiInfo struct {
	name string
	sym  *Term // symbolic value at the head (nil for IVs)
	ivc  *Term // coefficient, for IVs
	init Val
	next Val
	addr *Term
}

type Effect struct {
	kind   string
	guard  *Node
	loops  []*LoopInst
	addr   *Term
	val    Val
	fn     *ssa.Function // callee
	name   string
	args   []Val
	deref  []Val
	res    Val
	pos    token.Pos
	in     *ssa.Function
	ctx    string
	stack  []*ssa.Function
	gor    int
	seq    int
	pure   bool
	instr  ssa.Instruction
	okAtom *Term
}

type Engine struct {
	prog       *ssa.Program
	mod        string
	opaque     func(fn *ssa.Function) bool
	emptyLists map[*Term]bool // lists taken to be empty at first; true: met
	noInline   bool
	writesArg  func(fn *ssa.Function, i int) bool
	effects    []*Effect
	loops      []*LoopInst
	loopByID   map[string]*LoopInst
	owner      map[*Term][]*LoopInst
	tagOwner   map[string][]*LoopInst
	stack      []*ssa.Function
	recvs      []*Term
	gor        int
	rootGor    map[*Term]int
	ngor       int
	writes     []map[*Term]types.Type
	regions    []map[*Term]bool
	forest     map[*ssa.Function]*Forest
	steps      int
	quiet      int
	globConst  map[*ssa.Global]Val
	globElems  map[*ssa.Global]map[int64]Val
	globMaps   map[*ssa.Global][]mapEntry
	rootRets   []retEdge
	loopHeads  []string
	assumeHook func(e *Engine, fr *Frame, instr ssa.Instruction)
}

type mapEntry struct{ k, v Val }

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	free   []Val
	ctx    string
	defers []deferred
	rets   []retEdge
	fo     *Forest
	tails  map[ssa.Instruction][]retEdge // returns of the calls
}

type deferred struct {
	cc    *ssa.CallCommon
	fnv   Val
	args  []Val
	guard *Node
	instr ssa.Instruction
	loops []*LoopInst
}

type retEdge struct {
	g   *Node
	st  *State
	val Val
	pos token.Pos
	seq int
}

// ---- loops of a function ------------------------------------------------------

type SLoop struct {
	head     *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	parent   *SLoop
	children []*SLoop
	idx      int
}

type Forest struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*SLoop // by header
	inner map[*ssa.BasicBlock]*SLoop // innermost loop of a block
}

func buildForest(fn *ssa.Function) *Forest {
	f := &Forest{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*SLoop{}, inner: map[*ssa.BasicBlock]*SLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		// recover blocks only run after a recovered panic; none are analysed
	}
	for i := len(post) - 1; i >= 0; i-- {
		f.num[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.num[s] <= f.num[b] {
				if !s.Dominates(b) {
					panic(undecided("irreducible control flow in " + fn.String()))
				}
				l := f.loops[s]
				if l == nil {
					l = &SLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}, idx: s.Index}
					f.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	var ls []*SLoop
	for _, l := range f.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
	for i, l := range ls {
		for _, o := range ls[i+1:] {
			if o.body[l.head] {
				l.parent = o
				break
			}
		}
		for b := range l.body {
			if f.inner[b] == nil {
				f.inner[b] = l
			}
		}
	}
	return f
}

// ---- set-up --------------------------------------------------------------------

func newEngine(prog *ssa.Program, mod string) *Engine {
	e := &Engine{prog: prog, mod: mod, loopByID: map[string]*LoopInst{}, owner: map[*Term][]*LoopInst{}, tagOwner: map[string][]*LoopInst{}, forest: map[*ssa.Function]*Forest{}}
	e.opaque = func(*ssa.Function) bool { return false }
	return e
}

func (e *Engine) ownTag(tag string) {
	if _, ok := e.tagOwner[tag]; !ok {
		e.tagOwner[tag] = append([]*LoopInst{}, e.loops...)
	}
}
func (e *Engine) setOwner(t *Term, o []*LoopInst) {
	if _, ok := e.owner[t]; !ok {
		e.owner[t] = o
	}
}

// freshAt: a new unknown, named by where it is produced.
func (e *Engine) freshAt(op, name, site string, typ types.Type) *Term {
	t := mkTerm(op, name+"@"+site, typ)
	e.setOwner(t, append([]*LoopInst{}, e.loops...))
	return t
}

// variant: t depends on something produced inside l.
func (e *Engine) variant(l *LoopInst, t *Term) bool {
	return findSub(t, func(x *Term) bool {
		for _, o := range e.owner[x] {
			if o == l {
				return true
			}
		}
		if x.op == "gv" {
			for _, a := range x.obj.(*Scalar).alts {
				if e.variantGuard(l, a.g) {
					return true
				}
			}
		}
		if x.op == "boolv" {
			return e.variantGuard(l, x.obj.(*Node))
		}
		return false
	}) != nil
}

func (e *Engine) variantGuard(l *LoopInst, g *Node) bool {
	for _, a := range support(g) {
		if e.variant(l, a) {
			return true
		}
	}
	return false
}

func (e *Engine) variantVal(l *LoopInst, v Val) bool {
	switch x := v.(type) {
	case *Scalar:
		for _, a := range x.alts {
			if e.variant(l, a.t) || e.variantGuard(l, a.g) {
				return true
			}
		}
		return false
	case BoolVal:
		return e.variantGuard(l, x.n)
	case *StructVal:
		for _, f := range x.f {
			if e.variantVal(l, f) {
				return true
			}
		}
	case *TupleVal:
		for _, f := range x.v {
			if e.variantVal(l, f) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) noteWrite(addr *Term, typ types.Type) {
	for _, w := range e.writes {
		w[addr] = typ
	}
}
func (e *Engine) noteRegion(p *Term) {
	for _, w := range e.regions {
		w[p] = true
	}
}

func (e *Engine) emit(x *Effect) *Effect {
	x.loops = append([]*LoopInst{}, e.loops...)
	x.gor = e.gor
	x.seq = len(e.effects)
	x.stack = append([]*ssa.Function{}, e.stack...)
	if len(e.stack) > 0 {
		x.in = e.stack[len(e.stack)-1]
	}
	e.effects = append(e.effects, x)
	return x
}

// ---- functions -------------------------------------------------------------------

func (e *Engine) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path() == e.mod || strings.HasPrefix(f.Pkg.Pkg.Path(), e.mod+"/")
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path() == e.mod || strings.HasPrefix(o.Pkg().Path(), e.mod+"/")
		}
	}
	return false
}

// Run analyses fn as a root with the given parameter values.
func (e *Engine) Run(fn *ssa.Function, params []Val, g *Node, st *State) (Val, *Node, *State, []retEdge) {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, ctx: ""}
	v, rg, rst := e.evalFn(fr, params, nil, g, st)
	e.rootRets = fr.rets
	return v, rg, rst, fr.rets
}

func (e *Engine) symParams(fn *ssa.Function) []Val {
	var ps []Val
	for i, p := range fn.Params {
		_ = i
		ps = append(ps, symVal(mkTerm("sym", p.Name(), p.Type()), p.Type()))
	}
	return ps
}

// recvOf: the object a pointer method runs on, when known.
func recvOf(fn *ssa.Function, args []Val) *Term {
	if fn.Signature.Recv() == nil || len(args) == 0 {
		return nil
	}
	if t := one(args[0]); t != nil && (t.op == "sym" || t.op == "alloc") {
		return t
	}
	return nil
}

func (e *Engine) evalFn(fr *Frame, args []Val, free []Val, g *Node, st *State) (Val, *Node, *State) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(undecided("no body: " + fn.String()))
	}
	if e.forest[fn] == nil {
		e.forest[fn] = buildForest(fn)
	}
	fr.fo = e.forest[fn]
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	e.stack = append(e.stack, fn)
	e.recvs = append(e.recvs, recvOf(fn, args))
	pend := map[*ssa.BasicBlock][]edge{}
	pend[fn.Blocks[0]] = []edge{{g, st.clone(), -1}}
	e.evalRegion(fr, nil, pend)
	e.stack = e.stack[:len(e.stack)-1]
	e.recvs = e.recvs[:len(e.recvs)-1]
	if len(fr.rets) == 0 {
		return nil, bd.F, newState()
	}
	var es []edge
	var gs []*Node
	var vs []Val
	for _, r := range fr.rets {
		es = append(es, edge{r.g, r.st, 0})
		gs = append(gs, r.g)
		vs = append(vs, r.val)
	}
	return mergeVals(gs, vs), or(gs...), e.mergeStates(es, fr.ctx+"ret")
}

// handedOn: the call whose results x returns, all and in order, right after it.
func handedOn(x *ssa.Return) ssa.Instruction {
	var c *ssa.Call
	for i, v := range x.Results {
		y, _ := v.(*ssa.Call)
		if len(x.Results) > 1 {
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != i {
				return nil
			}
			y, _ = ex.Tuple.(*ssa.Call)
		}
		if y == nil || c != nil && y != c {
			return nil
		}
		c = y
	}
	if c == nil || c.Block() != x.Block() || c.Call.Signature().Results().Len() != len(x.Results) {
		return nil
	}
	after := false
	for _, in := range x.Block().Instrs {
		switch in.(type) {
		case *ssa.Extract, *ssa.DebugRef, *ssa.Return:
		default:
			if after {
				return nil
			}
		}
		after = after || in == ssa.Instruction(c)
	}
	return c
}

// evalRegion evaluates the blocks directly inside l (or the whole function).
func (e *Engine) evalRegion(fr *Frame, l *SLoop, pend map[*ssa.BasicBlock][]edge) {
	for _, b := range fr.fo.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		if len(pend[b]) == 0 {
			continue
		}
		if il := fr.fo.loops[b]; il != nil && il != l {
			if il.parent != l {
				continue
			}
			in := pend[b]
			delete(pend, b)
			e.evalLoop(fr, il, in, pend)
			continue
		}
		in := fr.fo.inner[b]
		if in != l {
			continue // belongs to an inner loop, already handled
		}
		es := pend[b]
		delete(pend, b)
		e.evalBlock(fr, b, es, pend, l)
	}
}

func predIndex(from, to *ssa.BasicBlock, which int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == which {
				return i
			}
			k++
		}
	}
	return -1
}

func (e *Engine) addEdge(fr *Frame, from, to *ssa.BasicBlock, which int, g *Node, st *State, pend map[*ssa.BasicBlock][]edge) {
	if g == bd.F {
		return
	}
	pend[to] = append(pend[to], edge{g, st, predIndex(from, to, which)})
}

func (e *Engine) mergePhi(fr *Frame, p *ssa.Phi, es []edge) Val {
	var gs []*Node
	var vs []Val
	for _, x := range es {
		gs = append(gs, x.g)
		vs = append(vs, e.get(fr, p.Edges[x.from]))
	}
	return mergeVals(gs, vs)
}

func (e *Engine) evalBlock(fr *Frame, b *ssa.BasicBlock, es []edge, pend map[*ssa.BasicBlock][]edge, l *SLoop) {
	var gs []*Node
	for _, x := range es {
		gs = append(gs, x.g)
	}
	g := or(gs...)
	st := e.mergeStates(es, fmt.Sprintf("%s:%d", fr.ctx, b.Index))
	// phis in parallel
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.mergePhi(fr, p, es))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	e.execBlock(fr, b, g, st, pend)
}

func (e *Engine) execBlock(fr *Frame, b *ssa.BasicBlock, g *Node, st *State, pend map[*ssa.BasicBlock][]edge) {
	for i, in := range b.Instrs {
		e.steps++
		if e.steps > 3000000 {
			panic(undecided("analysis budget exhausted"))
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		site := fmt.Sprintf("%s/%s:%d.%d", fr.ctx, fr.fn.Name(), b.Index, i)
		switch x := in.(type) {
		case *ssa.Jump:
			e.addEdge(fr, b, b.Succs[0], 0, g, st, pend)
			return
		case *ssa.If:
			c := asBool(e.get(fr, x.Cond))
			if b.Succs[0] == b.Succs[1] {
				e.addEdge(fr, b, b.Succs[0], 0, and(g, c), st, pend)
				e.addEdge(fr, b, b.Succs[0], 1, and(g, not(c)), st, pend)
				return
			}
			e.addEdge(fr, b, b.Succs[0], 0, and(g, c), st, pend)
			e.addEdge(fr, b, b.Succs[1], 0, and(g, not(c)), st, pend)
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = e.get(fr, x.Results[0])
			default:
				tv := &TupleVal{}
				for _, r := range x.Results {
					tv.v = append(tv.v, e.get(fr, r))
				}
				v = tv
			}
			ef := e.emit(&Effect{kind: "return", guard: g, val: v, pos: x.Pos(), ctx: site, instr: in})
			if qs := fr.tails[handedOn(x)]; len(qs) > 0 {
				// the results of a call handed on: its returns are ours
				for _, q := range qs {
					fr.rets = append(fr.rets, retEdge{q.g, q.st, q.val, q.pos, ef.seq})
				}
				return
			}
			fr.rets = append(fr.rets, retEdge{g, st, v, x.Pos(), ef.seq})
			return
		case *ssa.Panic:
			e.emit(&Effect{kind: "panic", guard: g, val: e.get(fr, x.X), pos: x.Pos(), ctx: site, instr: in})
			return
		}
		g, st = e.exec(fr, in, site, g, st)
		if g == bd.F {
			return
		}
	}
}

// ---- loops -------------------------------------------------------------------------

func (e *Engine) evalLoop(fr *Frame, l *SLoop, entry []edge, outPend map[*ssa.BasicBlock][]edge) {
	if n := e.trips(fr, l); n > 0 {
		e.unroll(fr, l, n, entry, outPend)
		return
	}
	id := fmt.Sprintf("%s/%s#%d", fr.ctx, fr.fn.Name(), l.head.Index)
	li := e.loopByID[id]
	if li == nil {
		li = &LoopInst{id: id, fn: fr.fn}
		e.loopByID[id] = li
		li.iv = mkTerm("iv", id, types.Typ[types.Int])
	}
	li.pos = loopPos(l)
	li.outer = append([]*LoopInst{}, e.loops...)
	li.gor = e.gor
	e.owner[li.iv] = append(append([]*LoopInst{}, e.loops...), li)
	var gs []*Node
	for _, x := range entry {
		gs = append(gs, x.g)
	}
	eg := or(gs...)
	est := e.mergeStates(entry, id+"in")
	li.entry = eg

	type phiSt struct {
		p    *ssa.Phi
		init Val
		mode string // "sym", "iv", "inv"
		coef *Term
		sym  *Term
		cur  Val
	}
	var phis []*phiSt
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var pg []*Node
		var pv []Val
		for _, x := range entry {
			pg = append(pg, x.g)
			pv = append(pv, e.get(fr, p.Edges[x.from]))
		}
		phis = append(phis, &phiSt{p: p, init: mergeVals(pg, pv), mode: "sym"})
	}
	type memSt struct {
		addr *Term
		typ  types.Type
		mode string
		coef *Term
		init Val
		cur  Val
		sym  *Term
	}
	mem := map[*Term]*memSt{}      // invariant cells
	pats := map[*Term]types.Type{} // element patterns
	regs := map[*Term]bool{}       // havocked regions
	mkSym := func(kind, name string, typ types.Type) *Term {
		t := mkTerm(kind, id+":"+name, typ)
		e.owner[t] = append(append([]*LoopInst{}, li.outer...), li)
		return t
	}
	for pass := 0; ; pass++ {
		if pass > 12 {
			panic(undecided("loop summary does not stabilise: " + id))
		}
		nEff := len(e.effects)
		nRet := len(fr.rets)
		nDef := len(fr.defers)
		// head state
		st := est.clone()
		for _, r := range sortedTerms(regs) {
			e.havocRegion(st, r, "L"+id)
		}
		ptags := map[*Term]bool{}
		for p := range pats {
			ptags[p] = true
		}
		for _, p := range sortedTerms(ptags) {
			for k := range st.heap {
				if pattern(k) == p {
					delete(st.heap, k)
				}
			}
			st.ep[p] = "L" + id
			if _, ok := e.tagOwner["L"+id]; !ok {
				e.tagOwner["L"+id] = append(append([]*LoopInst{}, li.outer...), li)
			}
		}
		for _, m := range mem {
			if m.init == nil {
				m.init = e.loadLeaf(est, m.addr, m.typ)
			}
			switch m.mode {
			case "sym":
				m.sym = mkSym("mem", fmt.Sprint(m.addr.id), m.typ)
				m.cur = symVal(m.sym, m.typ)
			case "iv":
				m.cur = e.ivVal(m.init, m.coef, li.iv, m.typ)
			case "inv":
				m.cur = m.init
			}
			st.heap[m.addr] = m.cur
		}
		for _, p := range phis {
			switch p.mode {
			case "sym":
				p.sym = mkSym("phi", p.p.Name(), p.p.Type())
				p.cur = symVal(p.sym, p.p.Type())
			case "iv":
				p.cur = e.ivVal(p.init, p.coef, li.iv, p.p.Type())
			case "inv":
				p.cur = p.init
			case "rest":
				p.cur = restVal(p.init, p.coef, li.iv, p.p.Type())
			}
			fr.env[p.p] = p.cur
		}
		w := map[*Term]types.Type{}
		rg := map[*Term]bool{}
		e.writes = append(e.writes, w)
		e.regions = append(e.regions, rg)
		e.loops = append(e.loops, li)
		pend := map[*ssa.BasicBlock][]edge{}
		e.execBlock(fr, l.head, eg, st, pend)
		backs := func() []edge { return pend[l.head] }
		saved := pend[l.head]
		delete(pend, l.head)
		e.evalRegion(fr, l, pend)
		all := append(saved, backs()...)
		delete(pend, l.head)
		e.loops = e.loops[:len(e.loops)-1]
		e.writes = e.writes[:len(e.writes)-1]
		e.regions = e.regions[:len(e.regions)-1]

		changed := false
		// classify phis
		for _, p := range phis {
			mode, coef := "sym", (*Term)(nil)
			if len(all) == 0 {
				mode = "inv"
			} else {
				mode, coef = e.classify(li, p.cur, p.p.Type(), func(x edge) Val { return e.get(fr, p.p.Edges[x.from]) }, all)
				if k := e.restStep(li, p.init, p.cur, p.sym, p.mode, func(x edge) Val { return e.get(fr, p.p.Edges[x.from]) }, all); k != nil {
					mode, coef = "rest", k
				}
			}
			switch {
			case pass == 0:
				if mode != p.mode || coef != p.coef {
					p.mode, p.coef = mode, coef
					changed = true
				}
			case p.mode == "iv" && (mode != "iv" || coef != p.coef), p.mode == "inv" && mode != "inv", p.mode == "rest" && (mode != "rest" || coef != p.coef):
				p.mode, p.coef = "sym", nil
				changed = true
			}
		}
		// writes
		addrs := map[*Term]bool{}
		for a := range w {
			addrs[a] = true
		}
		for _, a := range sortedTerms(addrs) {
			root := rootOf(a)
			if isFreshRoot(root) && e.ownedBy(li, root) {
				continue
			}
			if pattern(a) != a {
				p := pattern(a)
				if e.variant(li, p) {
					continue // element of an object that is new in every iteration
				}
				if _, ok := pats[p]; !ok {
					pats[p] = w[a]
					changed = true
				}
				continue
			}
			if e.variant(li, a) {
				continue
			}
			if mem[a] == nil {
				mem[a] = &memSt{addr: a, typ: w[a], mode: "sym"}
				changed = true
			}
		}
		for r := range rg {
			root := rootOf(r)
			if isFreshRoot(root) && e.ownedBy(li, root) {
				continue
			}
			if e.variant(li, r) {
				continue
			}
			if !regs[r] {
				regs[r] = true
				changed = true
			}
		}
		// classify cells
		for _, m := range mem {
			if m.cur == nil {
				continue
			}
			mode, coef := "inv", (*Term)(nil)
			if len(all) > 0 {
				mode, coef = e.classify(li, m.cur, m.typ, func(x edge) Val { return e.loadLeaf(x.st, m.addr, m.typ) }, all)
			}
			switch {
			case m.mode == "sym" && mode != "sym" && pass <= 4:
				m.mode, m.coef = mode, coef
				changed = true
			case m.mode == "iv" && (mode != "iv" || coef != m.coef), m.mode == "inv" && mode != "inv":
				m.mode, m.coef = "sym", nil
				changed = true
				pass += 5
			}
		}
		if changed {
			e.effects = e.effects[:nEff]
			fr.rets = fr.rets[:nRet]
			fr.defers = fr.defers[:nDef]
			continue
		}
		// final: publish
		li.phis, li.mem, li.exits, li.exitTo = nil, nil, nil, nil
		var bg []*Node
		for _, x := range all {
			bg = append(bg, x.g)
		}
		li.back = or(bg...)
		for _, p := range phis {
			pi := &PhiInfo{name: p.p.Comment, init: p.init}
			if p.mode == "iv" {
				pi.ivc = p.coef
			} else if p.mode == "sym" {
				pi.sym = p.sym
			}
			if len(all) > 0 {
				var vs []Val
				for _, x := range all {
					vs = append(vs, e.get(fr, p.p.Edges[x.from]))
				}
				pi.next = mergeVals(bg, vs)
			}
			li.phis = append(li.phis, pi)
		}
		ms := map[*Term]bool{}
		for a := range mem {
			ms[a] = true
		}
		for _, a := range sortedTerms(ms) {
			m := mem[a]
			pi := &PhiInfo{addr: m.addr, init: m.init}
			if m.mode == "iv" {
				pi.ivc = m.coef
			} else if m.mode == "sym" {
				pi.sym = m.sym
			}
			if len(all) > 0 {
				var vs []Val
				for _, x := range all {
					vs = append(vs, e.loadLeaf(x.st, m.addr, m.typ))
				}
				pi.next = mergeVals(bg, vs)
			}
			li.mem = append(li.mem, pi)
		}
		for _, b := range fr.fo.rpo {
			for _, x := range pend[b] {
				li.exits = append(li.exits, x.g)
				li.exitTo = append(li.exitTo, b.Comment)
			}
		}
		for b, es := range pend {
			outPend[b] = append(outPend[b], es...)
		}
		return
	}
}

func (e *Engine) ownedBy(li *LoopInst, t *Term) bool {
	for _, o := range e.owner[t] {
		if o == li {
			return true
		}
	}
	return false
}

func loopPos(l *SLoop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (e *Engine) ivVal(init Val, coef, iv *Term, typ types.Type) Val {
	return lift([]Val{init}, func(ts []*Term) Val {
		return sc(retype(add(ts[0], mul(coef, iv)), typ))
	})
}

// restVal: what is left of a list after iv rounds that take coef values each
// from its front.
func restVal(init Val, coef, iv *Term, typ types.Type) Val {
	t := one(init)
	return sc(sliceTerm(t, mul(coef, iv), lenTerm(t), typ))
}

// restStep: every round takes the same number of values from the front of a
// list (nil: it does not).
func (e *Engine) restStep(li *LoopInst, init, cur Val, sym *Term, mode string, next func(edge) Val, backs []edge) *Term {
	i, c := one(init), one(cur)
	if i == nil || c == nil || i.typ == nil || mode != "rest" && c != sym {
		return nil
	}
	if _, ok := i.typ.Underlying().(*types.Slice); !ok || e.variant(li, i) {
		return nil
	}
	var gs []*Node
	var vs []Val
	for _, x := range backs {
		gs = append(gs, x.g)
		vs = append(vs, next(x))
	}
	n := one(mergeVals(gs, vs))
	if n == nil || n.op != "slice" {
		return nil
	}
	base, lo, hi := sliceBase(c)
	if n.args[0] != base || sub(n.args[2], hi) != intTerm(0) {
		return nil
	}
	k := sub(n.args[1], lo)
	if v, ok := k.intVal(); ok && v > 0 {
		return k
	}
	if _, ok := k.intVal(); ok || e.variant(li, k) {
		return nil
	}
	return k
}

// classify how a loop-carried value changes over one iteration.
func (e *Engine) classify(li *LoopInst, cur Val, typ types.Type, next func(edge) Val, backs []edge) (string, *Term) {
	var gs []*Node
	var vs []Val
	for _, x := range backs {
		gs = append(gs, x.g)
		vs = append(vs, next(x))
	}
	n := mergeVals(gs, vs)
	if valEq(n, cur) {
		return "inv", nil
	}
	if !isInt(typ) {
		return "sym", nil
	}
	cs, ok1 := cur.(*Scalar)
	ns, ok2 := n.(*Scalar)
	if !ok1 || !ok2 || len(ns.alts) != 1 {
		// same step from every alternative
		if !ok1 || !ok2 || len(cs.alts) != len(ns.alts) {
			return "sym", nil
		}
	}
	var coef *Term
	if len(ns.alts) == 1 && len(cs.alts) == 1 {
		coef = sub(ns.alts[0].t, cs.alts[0].t)
	} else {
		// pair by equal guards under the back-edge guard
		for _, a := range ns.alts {
			found := false
			for _, b := range cs.alts {
				d := sub(a.t, b.t)
				if coef == nil || d == coef {
					if _, isC := d.intVal(); isC {
						coef = d
						found = true
						break
					}
				}
			}
			if !found {
				return "sym", nil
			}
		}
	}
	if coef != nil && e.variant(li, coef) {
		coef = e.closeInner(li, coef, or(gs...))
	}
	if coef == nil || e.variant(li, coef) {
		return "sym", nil
	}
	if findSub(coef, func(x *Term) bool { return x.op == "phi" || x.op == "mem" }) != nil && e.variant(li, coef) {
		return "sym", nil
	}
	return "iv", coef
}

// closeInner replaces the counters of finished inner loops by their trip
// counts, where the guard shows that the loop ran to its end.
func (e *Engine) closeInner(li *LoopInst, t *Term, g *Node) *Term {
	for round := 0; round < 3; round++ {
		iv := findSub(t, func(x *Term) bool { return x.op == "iv" && x != li.iv && e.ownedBy(li, x) })
		if iv == nil {
			return t
		}
		l := e.loopByID[iv.aux]
		if l == nil {
			return t
		}
		done := false
		for _, x := range l.exits {
			for _, a := range support(x) {
				if a.op != "le0" && a.op != "eq0" {
					continue
				}
				co, rest, ok := linearIn(a.args[0], iv)
				n, isC := int64(0), false
				if ok {
					n, isC = co.intVal()
				}
				if !isC || (n != 1 && n != -1) {
					continue
				}
				for _, off := range []int64{0, 1} {
					// iv + rest <= 0 or rest - iv <= 0
					cand := add(rest, intTerm(-off))
					if n == 1 {
						cand = add(polyTerm(polyScale(polyOf(rest), -1), rest.typ), intTerm(off))
					}
					if e.variant(l, cand) {
						continue
					}
					if ok, _ := e.isTrip(l, sc(cand), bd.T); !ok {
						continue
					}
					if ok, _ := entails(g, le0(polyScale(polyOf(cand), -1))); !ok {
						continue
					}
					nt := substTerm(t, map[*Term]*Term{iv: cand})
					if nt != t {
						t = nt
						done = true
					}
					break
				}
				if done {
					break
				}
			}
			if done {
				break
			}
		}
		if !done {
			return t
		}
	}
	return t
}

// ---- operands -------------------------------------------------------------------------

func (e *Engine) get(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		if x.Value.Kind() == constant.Bool {
			return BoolVal{bconst(constant.BoolVal(x.Value))}
		}
		return sc(constTerm(x.Value, x.Type()))
	case *ssa.Global:
		t := mkTerm("global", x.String(), x.Type())
		t.obj = x
		return sc(t)
	case *ssa.Function:
		return sc(funcTerm(x))
	case *ssa.Builtin:
		return sc(mkTerm("builtin", x.Name(), nil))
	}
	r, ok := fr.env[v]
	if !ok {
		panic(undecided(fmt.Sprintf("value %s of %s has no abstract value", v.Name(), fr.fn)))
	}
	return r
}

func funcTerm(f *ssa.Function) *Term {
	t := mkTerm("func", f.String(), f.Signature)
	t.obj = f
	return t
}

type closureObj struct {
	fn   *ssa.Function
	bind []Val
}
type ifaceObj struct {
	typ types.Type
	val Val
}

func ifaceTerm(typ types.Type, v Val, it types.Type) *Term {
	t := mkTerm("iface", types.TypeString(typ, nil), it, toTerm(v))
	t.obj = &ifaceObj{typ, v}
	return t
}

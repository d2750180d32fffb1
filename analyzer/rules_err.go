package main

// C14: no failure of an inner step is lost. Every call that yields an error
// is an obligation of the function it stands in: if the error is not nil,
// that function does not report success, whatever happens afterwards.

import (
	"go/ast"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

func errResult(sig *types.Signature) bool {
	r := sig.Results()
	return r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), errType)
}

// isQuery: a function whose only result is an error and which reads or
// converts nothing: its "error" is the answer to a question.
func (p *Program) isQuery(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if f.Signature.Results().Len() != 1 || !errResult(f.Signature) || len(buildForest(f).loops) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if !errResult(cc.Signature()) {
				continue
			}
			g := cc.StaticCallee()
			if g == nil {
				return false
			}
			if n := funcName(g); n == "fmt.Errorf" || n == "errors.New" {
				continue
			}
			if !p.engine().inModule(g) || !p.isQuery(g, seen) {
				return false
			}
		}
	}
	return true
}

// allLoaders: the exported functions that give a model.
func (p *Program) allLoaders() []*ssa.Function {
	var out []*ssa.Function
	sh := p.shape()
	for _, m := range p.pkg("").Members {
		f, ok := m.(*ssa.Function)
		if !ok || !ast.IsExported(f.Name()) || !errResult(f.Signature) || f.Signature.Results().Len() != 2 {
			continue
		}
		if pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), sh.ensT) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// modelLoaders: those that load models of one format. A function that chooses
// between loaders has nothing but their models to give.
func (p *Program) modelLoaders() []*ssa.Function {
	all := p.allLoaders()
	ef := p.effects()
	under := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range all {
		r := ef.reach(f)
		under[f] = map[*ssa.Function]bool{}
		for _, g := range all {
			if _, ok := r[g]; ok && g != f {
				under[f][g] = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		n := 0
		for g := range under[f] {
			if len(under[g]) == 0 {
				n++
			}
		}
		if n < 2 {
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) reachable(roots []*ssa.Function) []*ssa.Function {
	ef := p.effects()
	all := map[*ssa.Function]bool{}
	for _, r := range roots {
		for f := range ef.reach(r) {
			all[f] = true
		}
	}
	var out []*ssa.Function
	for f := range all {
		if ef.e.inModule(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

// runRoot evaluates f with unknown arguments and captured variables; step
// functions (those with an error of their own to report) are not inlined.
func (p *Program) runRoot(f *ssa.Function, opaque func(*ssa.Function) bool) (*Engine, []retEdge) {
	e := p.engine()
	e.opaque = opaque
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, ctx: ""}
	var free []Val
	for _, v := range f.FreeVars {
		free = append(free, symVal(mkTerm("sym", "free."+v.Name(), v.Type()), v.Type()))
	}
	e.evalFn(fr, e.symParams(f), free, bd.T, newState())
	return e, splitRets(f, fr.rets)
}

// splitRets: the results of a helper that are handed on are as many returns
// as there are errors among them.
func splitRets(f *ssa.Function, rets []retEdge) []retEdge {
	if !errResult(f.Signature) {
		return rets
	}
	var out []retEdge
	for _, q := range rets {
		as := altsOf(lastVal(q.val))
		if len(as) < 2 {
			out = append(out, q)
			continue
		}
		for _, a := range as {
			g := and(q.g, a.g)
			if unsat(g) {
				continue
			}
			n := q
			n.g = g
			if tv, ok := q.val.(*TupleVal); ok {
				m := &TupleVal{}
				for _, v := range tv.v[:len(tv.v)-1] {
					m.v = append(m.v, restrictVal(v, g))
				}
				m.v = append(m.v, &Scalar{[]Alt{{bd.T, a.t}}})
				n.val = m
			} else {
				n.val = &Scalar{[]Alt{{bd.T, a.t}}}
			}
			out = append(out, n)
		}
	}
	return out
}

func errOf(x *Effect) Val {
	switch v := x.res.(type) {
	case *TupleVal:
		return v.v[len(v.v)-1]
	}
	return x.res
}

// sticky: the error of x, if not nil, makes the function report an error.
func (c *Ctx) sticky(f *ssa.Function, e *Engine, rets []retEdge, x *Effect, eof bool) {
	ev := errOf(x)
	bad := and(x.guard, not(errIsNil(ev)))
	if eof {
		// the end of the input is not a failure of reading a line
		var succ []*Node
		for _, r := range rets {
			succ = append(succ, errIsNil(lastVal(r.val)))
		}
		for _, g := range append(append(guardsOf(rets), loopGuards(x)...), succ...) {
			for _, s := range support(g) {
				isEOF := func(t *Term) bool { return t.op == "global" && t.aux == "io.EOF" }
				if findSub(s, isEOF) == nil || s.op != "eq" && !(s.op == "call" && hasPfx(s.aux, "errors.Is")) {
					continue
				}
				for _, a := range altsOf(ev) {
					if s.args[0] == a.t || s.args[1] == a.t {
						bad = and(bad, not(bd.atom(s)))
					}
				}
			}
		}
	}
	if B := bufTarget(e, x); B != nil {
		// a buffered writer keeps its first failure until it is flushed
		fl := flushed(e, map[*Term]bool{B: true}, nil)
		for _, r := range rets {
			ok, cx := entails(and(r.g, errIsNil(lastVal(r.val)), bad), fl)
			c.must(ok, "sticky", x.in, x.pos, "%s reports success although a failure of %s may not have been noticed @@%s", fname(f), shortName(x.name), cut(litsStr(cx), 300))
		}
		return
	}
	var facts *Node
	for i := len(x.loops) - 1; i >= 0; i-- {
		l := x.loops[i]
		if !unsat(and(l.back, bad)) {
			if facts == nil {
				facts = keptErrors(e)
			}
			if k := keeper(l, bad, facts); k != nil {
				bad = or(bad, and(l.entry, not(errIsNil(sc(k.sym)))))
				continue
			}
		}
		c.must(unsat(and(l.back, bad)), "sticky", x.in, x.pos, "a failure of %s does not end the loop @@in %s", shortName(x.name), fname(f))
	}
	for _, r := range rets {
		good := and(r.g, errIsNil(lastVal(r.val)), bad)
		if !unsat(good) {
			if facts == nil {
				facts = keptErrors(e)
			}
			good = and(good, facts)
		}
		c.must(unsat(good), "sticky", x.in, x.pos, "%s reports success after a failure of %s @@returning at %s", fname(f), shortName(x.name), c.pos(r.pos))
	}
}

// errPhis: the variables of type error a loop carries on.
func errPhis(l *LoopInst) []*PhiInfo {
	var out []*PhiInfo
	for _, p := range append(append([]*PhiInfo{}, l.phis...), l.mem...) {
		if p.sym != nil && p.sym.typ != nil && types.Identical(p.sym.typ, errType) && p.next != nil {
			out = append(out, p)
		}
	}
	return out
}

// keptErrors: what holds of variables that keep an error once they have one:
// if they have none after any number of iterations they had none before.
func keptErrors(e *Engine) *Node {
	facts := bd.T
	done := map[*Term]bool{}
	for again := true; again; {
		again = false
		for _, l := range e.loopByID {
			for _, p := range errPhis(l) {
				if !done[p.sym] && unsat(and(l.back, facts, not(errIsNil(sc(p.sym))), errIsNil(p.next))) {
					done[p.sym] = true
					facts = and(facts, implies(errIsNil(sc(p.sym)), errIsNil(p.init)))
					again = true
				}
			}
		}
	}
	return facts
}

// keeper: a variable of the loop that holds an error from the failure on.
func keeper(l *LoopInst, bad, facts *Node) *PhiInfo {
	for _, p := range errPhis(l) {
		next := errIsNil(p.next)
		if unsat(and(l.back, bad, next, facts)) && unsat(and(l.back, not(errIsNil(sc(p.sym))), next, facts)) {
			return p
		}
	}
	return nil
}

// bufTarget: the buffered writer made here that x writes to.
func bufTarget(e *Engine, x *Effect) *Term {
	switch {
	case hasPfx(x.name, "fmt.Fprint"), x.name == "io.WriteString", hasPfx(x.name, "(*bufio.Writer).Write"), x.name == "(io.Writer).Write":
	default:
		return nil
	}
	for _, b := range e.effects {
		if calls(b) && b.seq < x.seq && hasPfx(b.name, "bufio.NewWriter") {
			if t := deIface(resAt(b, 0)); t != nil && uses(x, map[*Term]bool{t: true}) {
				return t
			}
		}
	}
	return nil
}

// flushed: the condition under which a flush of the buffer after its last
// use has succeeded; before: flushes that come after these do not count.
func flushed(e *Engine, B map[*Term]bool, before []*Effect) *Node {
	last := 0
	for _, z := range e.effects {
		if uses(z, B) && z.name != "(*bufio.Writer).Flush" && !hasSuffix(z.name, ".Buffered") && z.seq > last {
			last = z.seq
		}
	}
	fl := bd.F
	for _, z := range e.effects {
		if z.name == "(*bufio.Writer).Flush" && uses(z, B) && z.seq > last && len(z.loops) == 0 {
			ok := true
			for _, y := range before {
				if y.seq < z.seq && !unsat(and(y.guard, z.guard)) {
					ok = false
				}
			}
			if ok {
				fl = or(fl, and(z.guard, errIsNil(errOf(z))))
			}
		}
	}
	return fl
}

func givesReader(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		switch sig.Results().At(i).Type().String() {
		case filePtr, "*bufio.Reader", "io.Reader", "io.ReadCloser":
			return true
		}
	}
	return false
}

func guardsOf(rets []retEdge) []*Node {
	var out []*Node
	for _, r := range rets {
		out = append(out, r.g)
	}
	return out
}

func loopGuards(x *Effect) []*Node {
	var out []*Node
	for _, l := range x.loops {
		out = append(out, l.back)
	}
	return out
}

func lastVal(v Val) Val {
	if t, ok := v.(*TupleVal); ok {
		return t.v[len(t.v)-1]
	}
	return v
}

func shortName(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

func lineRead(n string) bool {
	return n == "(*bufio.Reader).ReadString" || n == "(*bufio.Reader).ReadBytes" || n == "(*bufio.Reader).ReadLine" || n == "(*bufio.Reader).ReadSlice"
}

// neverFails: the error returned is nil wherever f returns. What f calls is
// looked at in its callers then.
func neverFails(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		if k, ok := r.Results[len(r.Results)-1].(*ssa.Const); !ok || k.Value != nil {
			return false
		}
	}
	return n > 0
}

// stepFn tells the functions that do a step of their own and report its
// failure.
func (p *Program) stepFn() func(f *ssa.Function) bool {
	queries := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		if !errResult(f.Signature) || f.Parent() != nil || givesReader(f.Signature) {
			return false
		}
		if f.Object() != nil && !f.Object().Exported() {
			for _, v := range f.Params {
				if types.Identical(v.Type(), errType) {
					return false // the failure is its caller's
				}
			}
		}
		q, ok := queries[f]
		if !ok {
			q = neverFails(f) || p.isQuery(f, map[*ssa.Function]bool{})
			queries[f] = q
		}
		return !q
	}
}

func (c *Ctx) errorFlow(p *Program, fs []*ssa.Function, rule string) {
	step := p.stepFn()
	for _, f := range fs {
		f := f
		if !errResult(f.Signature) {
			// errors met in helpers without an error result are found in
			// their callers, which inline them
			continue
		}
		if !step(f) && f.Parent() == nil {
			continue
		}
		c.guarded(rule, f, func() {
			e, rets := p.runRoot(f, func(g *ssa.Function) bool { return g != f && step(g) })
			c.must(len(rets) > 0, rule, f, f.Pos(), "%s never returns", fname(f))
			for _, x := range e.effects {
				if x.kind != "call" && x.kind != "invoke" || x.res == nil {
					continue
				}
				var sig *types.Signature
				if ci, ok := x.instr.(ssa.CallInstruction); ok {
					sig = ci.Common().Signature()
				}
				if sig == nil || !errResult(sig) {
					continue
				}
				switch x.name {
				case "fmt.Errorf", "errors.New", "(*os.File).Close":
					continue
				}
				c.sticky(f, e, rets, x, lineRead(x.name))
			}
		})
	}
}

func ruleErrors(p *Program, c *Ctx) {
	ls := p.allLoaders()
	c.must(len(ls) >= 9, "loaders", nil, 0, "only %d exported loaders found", len(ls))
	step := p.stepFn()
	fs := p.reachable(ls)
	c.errorFlow(p, fs, "sticky")
	for _, f := range ls {
		f := f
		c.guarded("model", f, func() {
			_, rets := p.runRoot(f, func(g *ssa.Function) bool { return g != f && step(g) })
			for _, r := range rets {
				t, ok := r.val.(*TupleVal)
				if !ok {
					panic(undecided("results of " + fname(f)))
				}
				for _, a := range altsOf(t.v[0]) {
					g := and(r.g, a.g)
					if a.t.op == "res" || a.t.op == "ext" || a.t.op == "call" {
						// handed on from another loader, with its error
						ev := one(t.v[1])
						c.must(ev != nil && len(a.t.args) == 1 && len(ev.args) == 1 && a.t.args[0] == ev.args[0], "model", f, r.pos, "the model and the error returned come from different steps")
						continue
					}
					nilM := isNil(a.t)
					c.must(unsat(and(g, errIsNil(t.v[1]), nilM)), "model", f, r.pos, "success is reported without a model")
					c.must(unsat(and(g, not(errIsNil(t.v[1])), not(nilM))), "model", f, r.pos, "an error is reported together with a model")
				}
			}
		})
	}
	c.floor("sticky", 100)
	c.floor("model", 20)
}

func init() {
	reg("C14", ruleErrors, symText+"Rule: in every function that loaders reach, for each call returning an error: if that error is not nil, no loop containing the call continues and no return reports success (a question answered by an error, such as a comparison, and the end of input while reading lines are not failures). Exported loaders return a model exactly if they return no error.", asmInts, "the error of closing a file that was only read is no failure of loading")
}

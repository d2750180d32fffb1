package main

// C22: files are closed on every path; a writer reports every failure and
// writes every value once, in order.

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const filePtr = "*os.File"

var fileOpeners = map[string]bool{"os.Open": false, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "io/ioutil.TempFile": true}

func takesFile(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Type().String() == filePtr {
			return true
		}
	}
	return false
}

func givesFile(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if sig.Results().At(i).Type().String() == filePtr {
			return true
		}
	}
	return false
}

// moduleFns: all functions of the module with a body.
func (p *Program) moduleFns() []*ssa.Function {
	ef := p.effects()
	var out []*ssa.Function
	for f := range ef.sum {
		if ef.e.inModule(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

// resTerm: result k of a call.
func resAt(x *Effect, k int) *Term {
	if tv, ok := x.res.(*TupleVal); ok {
		if k < len(tv.v) {
			return one(tv.v[k])
		}
		return nil
	}
	if k == 0 {
		return one(x.res)
	}
	return nil
}

func calls(x *Effect) bool { return x.kind == "call" || x.kind == "invoke" }

func uses(x *Effect, objs map[*Term]bool) bool {
	if !calls(x) {
		return false
	}
	if x.addr != nil && objs[deIface(x.addr)] {
		return true
	}
	for _, a := range x.args {
		for _, al := range altsOf(a) {
			if objs[deIface(al.t)] {
				return true
			}
		}
	}
	return false
}

func deIface(t *Term) *Term {
	for t != nil && t.op == "iface" {
		io := t.obj.(*ifaceObj)
		u := one(io.val)
		if u == nil {
			return t
		}
		t = u
	}
	return t
}

func ruleFiles(p *Program, c *Ctx) {
	step := p.stepFn()
	n, nw := 0, 0
	for _, f := range p.moduleFns() {
		f := f
		if f.Parent() != nil || givesFile(f.Signature) || !p.opens(f) {
			continue
		}
		c.guarded("closed", f, func() {
			e, rets := p.runRoot(f, func(g *ssa.Function) bool {
				return g != f && step(g) && !takesFile(g.Signature) && !givesFile(g.Signature) && (!writerParam(g) || g.Name() == "WriteStr")
			})
			for _, x := range e.effects {
				w, is := fileOpeners[x.name]
				if !calls(x) || !is {
					continue
				}
				F, err := resAt(x, 0), errOf(x)
				if F == nil {
					panic(undecided("the file opened in " + fname(f)))
				}
				n++
				c.analysed(f)
				c.closedFile(f, e, rets, x, F, and(x.guard, errIsNil(err)))
				if w {
					nw++
					c.written(f, e, rets, x, F, and(x.guard, errIsNil(err)))
				}
			}
		})
	}
	c.must(n >= 8, "closed", nil, 0, "only %d places where files are opened", n)
	c.must(nw >= 1, "written", nil, 0, "no place where files are written")
	ruleWriteErrors(p, c)
	ruleText(p, c)
}

// opens: f, or a helper it inlines, opens a file.
func takesFunc(f *ssa.Function) bool {
	for _, q := range f.Params {
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (p *Program) opens(f *ssa.Function) bool {
	ef := p.effects()
	step := p.stepFn()
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil {
						if _, is := fileOpeners[funcName(h)]; is {
							return true
						}
						if ef.e.inModule(h) && (!step(h) || takesFile(h.Signature) || givesFile(h.Signature) || writerParam(h) || takesFunc(h)) && walk(h) {
							return true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// over: the file and everything wrapped around it.
func over(e *Engine, F *Term) map[*Term]bool {
	objs := map[*Term]bool{F: true}
	for again := true; again; {
		again = false
		for _, x := range e.effects {
			if !calls(x) || !uses(x, objs) {
				continue
			}
			if strings.HasPrefix(x.name, "bufio.New") || strings.HasPrefix(x.name, "io.") && !errResult2(x) {
				if r := resAt(x, 0); r != nil && !objs[deIface(r)] {
					objs[deIface(r)] = true
					again = true
				}
			}
		}
	}
	return objs
}

func errResult2(x *Effect) bool {
	ci, ok := x.instr.(ssa.CallInstruction)
	return ok && errResult(ci.Common().Signature())
}

func closesOf(e *Engine, F *Term) []*Effect {
	var out []*Effect
	for _, x := range e.effects {
		if calls(x) && strings.HasSuffix(x.name, ".Close") && uses(x, map[*Term]bool{F: true}) {
			out = append(out, x)
		}
	}
	return out
}

func (c *Ctx) closedFile(f *ssa.Function, e *Engine, rets []retEdge, x *Effect, F *Term, open *Node) {
	ys := closesOf(e, F)
	done := bd.F
	for _, y := range ys {
		if y.seq > x.seq {
			done = or(done, y.guard)
		}
	}
	if len(x.loops) > 0 {
		for _, l := range x.loops {
			ok, cx := entails(and(l.back, open), done)
			c.must(ok, "closed", x.in, x.pos, "a file opened in a loop stays open when %s", cut(litsStr(cx), 300))
		}
	}
	n := 0
	for _, r := range rets {
		g := and(r.g, open)
		if unsat(g) {
			continue
		}
		n++
		ok, cx := entails(g, done)
		c.must(ok, "closed", x.in, x.pos, "the file is still open when %s returns at %s @@when %s", fname(f), c.pos(r.pos), cut(litsStr(cx), 300))
	}
	c.must(n > 0, "closed", x.in, x.pos, "%s never returns after opening the file", fname(f))
	objs := over(e, F)
	for _, y := range ys {
		for _, z := range e.effects {
			if z.seq <= y.seq || !uses(z, objs) || strings.HasSuffix(z.name, ".Close") {
				continue
			}
			c.must(unsat(and(y.guard, z.guard)), "closed", z.in, z.pos, "%s uses a file that has been closed", shortName(z.name))
		}
	}
	// the file, or what reads it, is not kept
	for _, r := range rets {
		for _, v := range flatten(r.val) {
			for _, a := range altsOf(v) {
				c.must(!objs[deIface(a.t)] || unsat(and(r.g, a.g)), "closed", f, r.pos, "the closed file is returned")
			}
		}
	}
}

func flatten(v Val) []Val {
	if t, ok := v.(*TupleVal); ok {
		return t.v
	}
	if v == nil {
		return nil
	}
	return []Val{v}
}

func (c *Ctx) written(f *ssa.Function, e *Engine, rets []retEdge, x *Effect, F *Term, open *Node) {
	const rule = "written"
	objs := over(e, F)
	ys := closesOf(e, F)
	direct := false
	var lastUse int
	for _, z := range e.effects {
		if uses(z, objs) && !strings.HasSuffix(z.name, ".Close") && z.seq > lastUse {
			lastUse = z.seq
		}
	}
	ns := 0
	for _, r := range rets {
		ok := and(r.g, errIsNil(lastVal(r.val)))
		if unsat(ok) {
			continue
		}
		ns++
		good, cx := entails(ok, open)
		c.must(good, rule, f, r.pos, "success is reported without a file @@when %s", cut(litsStr(cx), 300))
		// one of the closes is known to have succeeded
		closed := bd.F
		for _, y := range ys {
			if y.seq > lastUse {
				closed = or(closed, and(y.guard, errIsNil(errOf(y))))
			}
		}
		good, cx = entails(ok, closed)
		c.must(good, rule, f, r.pos, "success is reported although closing the written file may have failed @@when %s", cut(litsStr(cx), 300))
		// every buffer over the file has been flushed after its last use
		for _, b := range e.effects {
			if !calls(b) || !strings.HasPrefix(b.name, "bufio.NewWriter") || !uses(b, objs) {
				continue
			}
			B := map[*Term]bool{deIface(resAt(b, 0)): true}
			used := false
			for _, z := range e.effects {
				used = used || uses(z, B) && z.name != "(*bufio.Writer).Flush"
			}
			if !used {
				continue
			}
			fl := flushed(e, B, ys)
			good, cx := entails(ok, fl)
			c.must(good, rule, f, b.pos, "success is reported although what was written may not have reached the file @@when %s", cut(litsStr(cx), 300))
		}
		// what is written is the whole matrix
		full := bd.F
		nw := 0
		for _, z := range e.effects {
			if calls(z) && z.fn != nil && z.fn.Name() == "WriteStr" && uses(z, objs) {
				nw++
				ps := e.symParams(f)
				same := len(z.args) == 3 && one(z.args[0]) == one(ps[0]) && one(z.args[2]) == one(ps[len(ps)-1])
				c.must(same, rule, f, z.pos, "another matrix or delimiter is written")
				full = or(full, z.guard)
			}
		}
		if f.Signature.Recv() != nil && nw > 0 {
			good, cx = entails(ok, full)
			c.must(good && nw == 1, rule, f, f.Pos(), "the matrix is not written exactly once @@when %s", cut(litsStr(cx), 300))
		}
		direct = nw == 0
	}
	c.must(ns > 0, rule, f, f.Pos(), "%s never succeeds", fname(f))
	if f.Signature.Recv() != nil && direct {
		ps := e.symParams(f)
		c.matrixText(c.p, f, e, rets, one(ps[0]), one(ps[len(ps)-1]), objs)
	}
}

// ruleWriteErrors: failures of inner steps of writers are reported.
func ruleWriteErrors(p *Program, c *Ctx) {
	var roots []*ssa.Function
	for _, n := range []string{"DenseMat.WriteStr", "DenseMat.ToCsvFile"} {
		roots = append(roots, p.fn("mat", n))
	}
	for _, l := range p.allLoaders() {
		if p.opens(l) {
			roots = append(roots, l)
		}
	}
	for _, f := range p.moduleFns() {
		if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/mat") && f.Parent() == nil && p.opens(f) {
			roots = append(roots, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, f := range roots {
		for _, g := range p.reachable([]*ssa.Function{f}) {
			if (g == f || g.Name() == "WriteStr" || writerParam(g)) && !seen[g] {
				seen[g] = true
				fs = append(fs, g)
			}
		}
	}
	c.errorFlow(p, fs, "sticky")
	c.floor("sticky", 15)
}

func writerParam(f *ssa.Function) bool {
	for _, q := range f.Params {
		switch q.Type().String() {
		case "io.Writer", "*bufio.Writer", filePtr, "io.StringWriter":
			return true
		}
	}
	return false
}

// wtok: one thing written.
type wtok struct {
	x   *Effect
	g   *Node
	num *Term // a number
	str *Term // a text
	fmt string
}

var verbRE = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

// tokens: what a call writes to the writer.
func (e *Engine) tokens(x *Effect, W map[*Term]bool) (out []wtok, mine bool, why string) {
	is := func(v Val) bool { t := one(v); return t != nil && W[deIface(t)] }
	val := func(v Val, f string) {
		var as []Alt
		for _, a := range altsOf(v) {
			t := a.t
			if t.op == "iface" {
				for _, b := range altsOf(t.obj.(*ifaceObj).val) {
					as = append(as, Alt{g: and(a.g, b.g), t: b.t})
				}
				continue
			}
			as = append(as, a)
		}
		if len(as) == 0 {
			why = "a value written could not be decided"
		}
		for _, a := range as {
			t := deIface(a.t)
			tk := wtok{x: x, g: and(x.guard, a.g), fmt: f}
			if t.typ != nil && isFloat(t.typ) {
				tk.num = t
			} else if t.typ != nil && types.Identical(t.typ.Underlying(), types.Typ[types.String]) {
				if n, f2 := floatText(t); n != nil {
					tk.num, tk.fmt = n, f2
				} else {
					tk.str = t
				}
			} else if t.op == "conv" || t.op == "bytes" {
				tk.str = t.args[0]
			} else {
				why = "a value written could not be decided"
			}
			out = append(out, tk)
		}
	}
	switch x.name {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if !is(x.args[0]) {
			return nil, false, ""
		}
		mine = true
		k := 1
		if x.name == "fmt.Fprintf" {
			k = 2
		}
		vs, ok := e.variadic(x, x.args[k])
		if !ok {
			return nil, true, "the arguments of " + x.name
		}
		if x.name != "fmt.Fprintf" {
			if len(vs) > 1 {
				return nil, true, "several values written at once"
			}
			for _, v := range vs {
				val(v, "%v")
			}
			if x.name == "fmt.Fprintln" {
				out = append(out, wtok{x: x, g: x.guard, str: strTerm("\n")})
			}
			return
		}
		f, ok := one(x.args[1]).strVal()
		if !ok {
			return nil, true, "the format"
		}
		pos, i := 0, 0
		for _, m := range verbRE.FindAllStringIndex(f, -1) {
			if m[0] > pos {
				out = append(out, wtok{x: x, g: x.guard, str: strTerm(f[pos:m[0]])})
			}
			v := f[m[0]:m[1]]
			pos = m[1]
			if v == "%%" {
				out = append(out, wtok{x: x, g: x.guard, str: strTerm("%")})
				continue
			}
			if i >= len(vs) {
				return nil, true, "the format has more verbs than values"
			}
			val(vs[i], v)
			i++
		}
		if pos < len(f) {
			out = append(out, wtok{x: x, g: x.guard, str: strTerm(f[pos:])})
		}
		return
	case "io.WriteString", "(*bufio.Writer).WriteString", "(io.StringWriter).WriteString":
		rest := x.args
		if x.addr != nil && W[deIface(x.addr)] {
			mine = true
		} else if len(x.args) > 1 && is(x.args[0]) {
			mine, rest = true, x.args[1:]
		}
		if mine {
			val(rest[0], "%s")
		}
		return
	case "(io.Writer).Write", "(*bufio.Writer).Write":
		rest := x.args
		if x.addr != nil && W[deIface(x.addr)] {
			mine = true
		} else if len(x.args) > 1 && is(x.args[0]) {
			mine, rest = true, x.args[1:]
		}
		if mine {
			t := one(rest[0])
			if t != nil && t.op == "conv" && len(t.args) == 1 {
				val(sc(t.args[0]), "%s")
			} else {
				why = "the bytes written"
			}
		}
		return
	}
	if uses(x, W) && !strings.HasPrefix(x.name, "bufio.New") && x.name != "(*bufio.Writer).Flush" && !strings.HasSuffix(x.name, ".Close") {
		return nil, true, shortName(x.name)
	}
	return nil, false, ""
}

// floatText: the text of a number.
func floatText(t *Term) (*Term, string) {
	if isCall(t, "strconv.FormatFloat") && len(t.args) == 4 {
		prec, ok1 := t.args[2].intVal()
		bits, ok2 := t.args[3].intVal()
		verb, ok3 := t.args[1].intVal()
		if ok1 && ok2 && ok3 && bits == 64 {
			if prec < 0 {
				return t.args[0], "%v"
			}
			return t.args[0], "%." + strconv.FormatInt(prec, 10) + string(rune(verb))
		}
	}
	if isCall(t, "fmt.Sprint") {
		return nil, ""
	}
	return nil, ""
}

// exactVerb: the text determines the number.
func exactVerb(v string) bool {
	if v == "%v" || v == "%g" {
		return true
	}
	if m := regexp.MustCompile(`^%\.([0-9]+)([geGE])$`).FindStringSubmatch(v); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n >= 17 || n == 16 && strings.ToLower(m[2]) == "e"
	}
	return false
}

// variadic: the values of a variadic argument.
func (e *Engine) variadic(x *Effect, v Val) ([]Val, bool) {
	t := one(v)
	if t == nil {
		return nil, false
	}
	if t.op == "nil" {
		return nil, true
	}
	if t.op != "slice" || t.args[0].op != "alloc" {
		return nil, false
	}
	n, ok := t.args[2].intVal()
	if !ok {
		return nil, false
	}
	out := make([]Val, n)
	for _, y := range e.effects {
		if y.seq < x.seq && y.kind == "store" && y.addr.op == "index" && y.addr.args[0] == t.args[0] {
			if i, ok := y.addr.args[1].intVal(); ok && i < n {
				out[i] = y.val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

// ruleText: WriteStr writes every value once, row by row.
func ruleText(p *Program, c *Ctx) {
	f := p.fn("mat", "DenseMat.WriteStr")
	c.guarded("text", f, func() {
		e, rets := p.runRoot(f, func(g *ssa.Function) bool { return false })
		c.analysed(f)
		ps := e.symParams(f)
		c.matrixText(p, f, e, rets, one(ps[0]), one(ps[2]), over(e, one(ps[1])))
	})
	c.floor("text", 8)
}

func (c *Ctx) matrixText(p *Program, f *ssa.Function, e *Engine, rets []retEdge, m, delim *Term, W map[*Term]bool) {
	const rule = "text"
	mt := p.typ("mat", "DenseMat")
	fld := func(n string) *Term {
		h := fieldOf(mt, n)
		return one(e.loadVal(newState(), fieldAddr(m, h.Name(), h.Type()), h.Type()))
	}
	rows, cols, vals := fld("Rows"), fld("Cols"), fld("Values")
	var toks []wtok
	for _, x := range e.effects {
		if !calls(x) {
			continue
		}
		ts, mine, why := e.tokens(x, W)
		if why != "" {
			c.must(false, rule, x.in, x.pos, "what is written could not be decided: %s", why)
		}
		if mine {
			toks = append(toks, ts...)
		}
	}
	succ := bd.F
	for _, r := range rets {
		succ = or(succ, and(r.g, errIsNil(lastVal(r.val))))
	}
	some := and(succ, not(eq0(polyOf(rows))), not(eq0(polyOf(cols))), not(le0(polyOf(rows))), not(le0(polyOf(cols))))
	if !c.must(!unsat(some), rule, f, f.Pos(), "no matrix is ever written") {
		return
	}
	ok, cx := entails(succ, eq0(polyOf(sub(mul(rows, cols), lenTerm(vals)))))
	c.must(ok, rule, f, f.Pos(), "a matrix of the wrong shape is written @@when %s", cut(litsStr(cx), 300))
	var nums []wtok
	for _, t := range toks {
		if t.num != nil {
			nums = append(nums, t)
		}
	}
	if !c.must(len(nums) == 1 && (len(nums[0].x.loops) == 2 || len(nums[0].x.loops) == 1), rule, f, f.Pos(), "values are not written in one place in a loop over rows and columns") {
		return
	}
	v := nums[0]
	// once an error is kept, success is not reported: only the runs without
	// one matter
	fact := keptErrors(e)
	for i, l := range v.x.loops {
		in := some
		if i > 0 {
			in = v.x.loops[i-1].back
		}
		for _, k := range errPhis(l) {
			next := errIsNil(k.next)
			if unsat(and(in, fact, not(errIsNil(sc(k.sym))))) && unsat(and(l.back, not(errIsNil(sc(k.sym))), next, fact)) {
				fact = and(fact, errIsNil(sc(k.sym)), next)
			}
		}
	}
	// through: all iterations 0..n-1 write w, and only these
	through := func(l *LoopInst, n *Term, after, w *Node, what string) {
		end := le0(polyOf(sub(n, l.iv)))
		lastI := eq0(polyOf(sub(sub(n, intTerm(1)), l.iv)))
		ok, cx := entails(and(after, fact), or(end, and(lastI, w)))
		c.must(ok, rule, v.x.in, v.x.pos, "not every %s is written: left early when %s", what, cut(litsStr(cx), 300))
		ok, cx = entails(and(w, fact), not(end))
		c.must(ok, rule, v.x.in, v.x.pos, "more than every %s is written: when %s", what, cut(litsStr(cx), 300))
		ok, cx = entails(and(l.back, fact), w)
		c.must(ok, rule, v.x.in, v.x.pos, "a %s is not written when %s", what, cut(litsStr(cx), 300))
	}
	var lo, li *LoopInst
	at := v.num
	if at != nil && at.op == "load" {
		at = at.args[0]
	}
	okV := false
	var last, first *Node
	if len(v.x.loops) == 2 {
		lo, li = v.x.loops[0], v.x.loops[1]
		through(lo, rows, some, lo.back, "row")
		through(li, cols, lo.back, v.x.guard, "value")
		if at != nil && at.op == "index" && at.args[0] == vals {
			d := sub(at.args[1], add(mul(lo.iv, cols), li.iv))
			okV, _ = entails(v.x.guard, eq0(polyOf(d)))
		}
		last = eq0(polyOf(sub(li.iv, sub(cols, intTerm(1)))))
		first = eq0(polyOf(li.iv))
		c.must(okV, rule, v.x.in, v.x.pos, "the value written in row %v, column %v is %v", lo.iv, li.iv, v.num)
	} else {
		// one loop over all values: rows end where the column number wraps
		li = v.x.loops[0]
		lo = li
		through(li, lenTerm(vals), some, v.x.guard, "value")
		okV = at != nil && at.op == "index" && at.args[0] == vals
		if okV {
			okV, _ = entails(v.x.guard, eq0(polyOf(sub(at.args[1], li.iv))))
		}
		c.must(okV, rule, v.x.in, v.x.pos, "the value written at position %v is %v", li.iv, v.num)
		I := types.Typ[types.Int]
		last = eq0(polyOf(one(e.binop(token.REM, sc(add(li.iv, intTerm(1))), sc(cols), I, I))))
		// the same test in other words
		other := eq0(polyOf(sub(one(e.binop(token.REM, sc(li.iv), sc(cols), I, I)), sub(cols, intTerm(1)))))
		for _, t := range toks {
			for _, s := range support(t.g) {
				if bd.atom(s) == other {
					last = other
				}
			}
		}
		first = eq0(polyOf(one(e.binop(token.REM, sc(li.iv), sc(cols), I, I))))
	}
	c.must(exactVerb(v.fmt), rule, v.x.in, v.x.pos, "the text %s does not determine the value", v.fmt)
	nd, nn := 0, 0
	seen := false
	// in the iterations with a value, t is written exactly when want
	exactly := func(t wtok, want *Node, what string) {
		for _, in := range []*Node{and(li.back, fact), and(lo.back, v.x.guard, fact)} {
			if lo == li && len(v.x.loops) == 1 {
				in = and(li.back, fact)
			}
			ok, cx := equivTh(t.g, want, in)
			c.must(ok, rule, t.x.in, t.x.pos, "%s @@%s", what, cut(litsStr(cx), 300))
		}
		if len(v.x.loops) == 2 {
			c.must(unsat(and(lo.back, fact, not(v.x.guard), t.g)), rule, t.x.in, t.x.pos, "%s", what)
		}
	}
	for _, t := range toks {
		if t == v {
			seen = true
			continue
		}
		in := len(t.x.loops) == len(v.x.loops) && t.x.loops[len(t.x.loops)-1] == li
		switch {
		case in && t.str == delim:
			nd++
			want := not(last)
			if !seen {
				want = not(first)
			}
			exactly(t, want, "the delimiter does not stand exactly between values")
		case in && t.str == strTerm("\n"):
			nn++
			exactly(t, last, "a row is not ended exactly after its last value")
			c.must(seen, rule, t.x.in, t.x.pos, "a row is ended before its last value")
		case len(t.x.loops) == 1 && t.x.loops[0] == lo && t.str == strTerm("\n"):
			nn++
			okN, cx := entails(and(lo.back, fact), t.g)
			c.must(okN && seen, rule, t.x.in, t.x.pos, "a row is not ended @@when %s", cut(litsStr(cx), 300))
		default:
			c.must(unsat(and(t.g, some)) && len(t.x.loops) == 0 && t.str == strTerm("\n"), rule, t.x.in, t.x.pos, "something else than the values is written @@%v", t.str)
		}
	}
	c.must(nd == 1, rule, f, f.Pos(), "%d delimiters are written after a value", nd)
	c.must(nn == 1, rule, f, f.Pos(), "%d line ends are written after a row", nn)
}

func init() {
	reg("C22", ruleFiles, symText+"Rule: for every place where a file is opened, every return reached afterwards is covered by calls of Close on that file (deferred calls are evaluated at the returns) and nothing uses the file, or a buffer over it, after a close; a function that writes a file reports success only under the condition that a Close after the last use, and a Flush after the last use of a buffer, returned nil; an error of any inner step prevents success. What WriteStr writes is listed as tokens and matched with rows, delimiters and line ends.", asmInts, "fmt writes what its documentation says")
}

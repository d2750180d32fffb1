package main

// C21: the matrix readers keep one row per line in a consistent shape.

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matReaders: the exported functions of mat that read a matrix from lines.
func (p *Program) matReaders() (readers, files []*ssa.Function) {
	for _, m := range p.pkg("mat").Members {
		f, ok := m.(*ssa.Function)
		if !ok || !ast.IsExported(f.Name()) || !errResult(f.Signature) || f.Signature.Params().Len() == 0 {
			continue
		}
		switch f.Signature.Params().At(0).Type().String() {
		case "*bufio.Reader", "io.Reader":
			readers = append(readers, f)
		case "string":
			if p.opens(f) {
				files = append(files, f)
			}
		}
	}
	for _, fs := range [][]*ssa.Function{readers, files} {
		fs := fs
		sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	}
	return
}

// MRun: one reader.
type MRun struct {
	p    *Program
	c    *Ctx
	f    *ssa.Function
	e    *Engine
	rets []retEdge
	csv  bool
	csr  bool
	L    *LoopInst
	rd   *Effect
	line *Term

	limit, delim, def *Term
	skip              *Node
	facts             *Node // counters of lines
	kept              *Node // rounds that add a line
	okTrim            map[*Term]bool
}

const matRule = "lines"

func (r *MRun) must(ok bool, pos token.Pos, format string, args ...interface{}) bool {
	return r.c.must(ok, matRule, r.f, pos, format, args...)
}

func (r *MRun) imply(g, h *Node, pos token.Pos, what string) bool {
	ok, cx := entails(and(g, r.facts), h)
	return r.must(ok, pos, "%s @@when %s", what, cut(litsStr(cx), 300))
}

func ruleMat(p *Program, c *Ctx) {
	readers, files := p.matReaders()
	c.must(len(readers) >= 3, matRule, nil, 0, "only %d matrix readers found", len(readers))
	c.must(len(files) >= 3, "file", nil, 0, "only %d matrix file readers found", len(files))
	for _, f := range readers {
		f := f
		c.guarded(matRule, f, func() { p.matReader(c, f) })
	}
	for _, f := range files {
		f := f
		c.guarded("file", f, func() { p.matFile(c, f) })
	}
	c.errorFlow(p, p.reachable(readers), "sticky")
	p.matConstructors(c)
	c.floor(matRule, 30)
	c.floor("file", 6)
	c.floor("sticky", 10)
	c.floor("array", 10)
}

func (p *Program) matReader(c *Ctx, f *ssa.Function) {
	e, rets := p.runRoot(f, func(g *ssa.Function) bool { return false })
	c.analysed(f)
	r := &MRun{p: p, c: c, f: f, e: e, rets: rets, facts: bd.T, okTrim: map[*Term]bool{}}
	ps := e.symParams(f)
	var reader *Term
	for i, q := range f.Params {
		t := one(ps[i])
		switch b := q.Type().Underlying().(type) {
		case *types.Pointer:
			reader = t
		case *types.Interface:
			reader = t
		case *types.Basic:
			switch {
			case b.Info()&types.IsBoolean != 0:
				r.skip = asBool(ps[i])
			case b.Info()&types.IsInteger != 0:
				r.limit = t
			case b.Info()&types.IsString != 0:
				r.delim, r.csv = t, true
			case isFloat(b):
				r.def = t
			}
		}
	}
	res := f.Signature.Results().At(0).Type()
	r.csr = strings.HasSuffix(res.String(), "mat.CSRMat")
	if !r.must(reader != nil && r.skip != nil && r.limit != nil && (!r.csv || r.def != nil), f.Pos(), "the parameters of %s", fname(f)) {
		return
	}
	for _, x := range e.effects {
		if x.name == "(*bufio.Reader).ReadString" {
			k := len(x.args) - 1
			nl, ok := one(x.args[k]).intVal()
			src := x.addr
			if k == 1 {
				src = one(x.args[0])
			}
			if !r.must(r.rd == nil && ok && nl == '\n' && len(x.loops) == 1 && src == reader, x.pos, "lines are not read one by one from the reader") {
				return
			}
			r.rd, r.L, r.line = x, x.loops[0], resAt(x, 0)
		} else if calls(x) && uses(x, map[*Term]bool{reader: true}) {
			r.must(false, x.pos, "the reader is also used by %s", shortName(x.name))
		}
	}
	if !r.must(r.rd != nil && r.line != nil, f.Pos(), "lines are not read one by one from the reader") {
		return
	}
	r.c.must(r.rd.guard == bd.T || func() bool { ok, _ := entails(r.L.back, r.rd.guard); return ok }(), matRule, f, r.rd.pos, "a line is not read in every round")
	r.counters()
	r.kept = r.L.back
	r.result(res)
	r.limits()
}

// counters: variables that count the rounds.
func (r *MRun) counters() {
	for _, k := range append(append([]*PhiInfo{}, r.L.phis...), r.L.mem...) {
		if k.sym == nil || k.sym.typ == nil || k.next == nil || !isInteger(k.sym.typ) {
			continue
		}
		i := one(k.init)
		if i == nil {
			continue
		}
		n, ok := i.intVal()
		if !ok {
			continue
		}
		if r.always(r.L.back, k.next, add(k.sym, intTerm(1))) {
			r.facts = and(r.facts, eq0(polyOf(sub(sub(k.sym, intTerm(n)), r.L.iv))))
		}
	}
	r.facts = and(r.facts, le0(polyOf(sub(intTerm(0), r.L.iv))))
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// always: v is t at g.
func (r *MRun) always(g *Node, v Val, t *Term) bool {
	ok, _ := entails(and(g, r.facts), r.same(v, t))
	return ok
}

func (r *MRun) same(v Val, t *Term) *Node {
	out := bd.F
	for _, a := range altsOf(v) {
		if a.t == t {
			out = or(out, a.g)
		} else if a.t.typ != nil && isInteger(a.t.typ) {
			out = or(out, and(a.g, eq0(polyOf(sub(a.t, t)))))
		}
	}
	return out
}

// trim: t is the line without its end (and, where they mean nothing, without
// surrounding spaces).
func (r *MRun) trim(t *Term) bool {
	if ok, is := r.okTrim[t]; is {
		return ok
	}
	ok := r.trim1(t)
	r.okTrim[t] = ok
	return ok
}

func (r *MRun) trim1(t *Term) bool {
	if t == r.line {
		return true
	}
	if t == nil || len(t.args) == 0 || !r.trim(t.args[0]) {
		return false
	}
	switch {
	case isCall(t, "strings.TrimSpace"):
		return !r.csv
	case isCall(t, "strings.TrimRight", "strings.TrimSuffix", "strings.Trim"):
		s, ok := t.args[1].strVal()
		return ok && strings.Trim(s, "\r\n") == "" || ok && !r.csv && strings.TrimSpace(s) == ""
	case isCall(t, "strings.TrimFunc", "strings.TrimRightFunc"):
		return r.trimFunc(t.args[1])
	}
	return false
}

// trimFunc: the function never holds for a character of the delimiter.
func (r *MRun) trimFunc(t *Term) bool {
	var g *ssa.Function
	var bind []Val
	switch o := t.obj.(type) {
	case *closureObj:
		g, bind = o.fn, o.bind
	case *ssa.Function:
		g = o
	default:
		return false
	}
	if !r.csv {
		return true
	}
	if len(g.Blocks) == 0 || len(g.Params) != 1 {
		return false
	}
	e, rets := r.p.runRoot(g, func(*ssa.Function) bool { return false })
	ch := one(e.symParams(g)[0])
	// the captured delimiter
	isDelim := func(t *Term) bool {
		for i, v := range g.FreeVars {
			s := mkTerm("sym", "free."+v.Name(), v.Type())
			b := one(bind[i])
			if b == nil {
				continue
			}
			if t == s && b == r.delim {
				return true
			}
			if t.op == "load" && t.args[0] == s {
				n := 0
				for _, x := range r.e.effects {
					if x.kind == "store" && x.addr == b {
						if one(x.val) != r.delim {
							return false
						}
						n++
					}
				}
				return n == 1
			}
		}
		return false
	}
	if len(rets) == 0 {
		return false
	}
	for _, q := range rets {
		hit := and(q.g, asBool(q.val))
		if unsat(hit) {
			continue
		}
		in := bd.F
		for _, a := range support(hit) {
			if (isCall(a, "strings.ContainsRune") || a.op == "call" && a.aux == "strings.ContainsRune") && isDelim(a.args[0]) && a.args[1] == ch {
				in = or(in, bd.atom(a))
			}
		}
		if !unsat(and(hit, in)) || in == bd.F {
			// end-of-line characters may go in any case
			eol := bd.F
			for _, k := range []int64{'\n', '\r'} {
				eol = or(eol, eq0(polyOf(sub(ch, intTerm(k)))))
			}
			if ok, _ := entails(hit, eol); !ok {
				return false
			}
		}
	}
	return true
}

// blank: nothing is left of the line.
func (r *MRun) blank(g *Node) *Node {
	out := bd.F
	for _, a := range support(g) {
		if t := emptyTest(a); t != nil && r.trim(t) && t != r.line {
			out = or(out, bd.atom(a))
		} else if t != nil && t.op == "load" && t.args[0].op == "index" && isZeroT(t.args[0].args[1]) {
			// the only part of a line is empty
			if sp := t.args[0].args[0]; isCall(sp, "strings.Split") && r.trim(sp.args[0]) && sp.args[0] != r.line {
				out = or(out, and(bd.atom(a), eq0(polyOf(sub(lenTerm(sp), intTerm(1))))))
			}
		}
	}
	return out
}

// emptyTest: a is the test that a string is empty.
func emptyTest(a *Term) *Term {
	if a.op == "eq0" && a.args[0].op == "len" {
		return a.args[0].args[0]
	}
	if a.op == "eq" {
		for i := 0; i < 2; i++ {
			if s, ok := a.args[i].strVal(); ok && s == "" {
				return a.args[1-i]
			}
		}
	}
	return nil
}

func (r *MRun) atEOF(g *Node) *Node {
	ev := errOf(r.rd)
	out := bd.F
	for _, s := range support(g) {
		if s.op != "eq" && !(s.op == "call" && hasPfx(s.aux, "errors.Is")) || len(s.args) < 2 {
			continue
		}
		isEOF := func(t *Term) bool { return t.op == "global" && t.aux == "io.EOF" }
		if findSub(s, isEOF) == nil {
			continue
		}
		for _, a := range altsOf(ev) {
			if s.args[0] == a.t || s.args[1] == a.t {
				out = or(out, bd.atom(s))
			}
		}
	}
	return out
}

// limits: no more lines than asked for are kept.
func (r *MRun) limits() {
	lim := not(le0(polyOf(r.limit)))
	before := not(le0(polyOf(sub(r.limit, r.L.iv)))) // iv < limit
	after := not(le0(polyOf(sub(r.limit, add(r.L.iv, intTerm(1))))))
	a, _ := entails(and(r.kept, lim, r.facts), before)
	b, _ := entails(and(r.L.back, lim, before, r.facts), after)
	r.must(a || b, r.rd.pos, "more lines than the limit can be read")
}

// post: t is what a variable holds after (pre: before) the line of this round.
func (r *MRun) when(t *Term) (k *PhiInfo, post bool) {
	for _, q := range append(append([]*PhiInfo{}, r.L.phis...), r.L.mem...) {
		if q.sym != nil && q.sym == t {
			return q, false
		}
	}
	for _, q := range append(append([]*PhiInfo{}, r.L.phis...), r.L.mem...) {
		if q.sym == nil || q.next == nil {
			continue
		}
		for _, a := range altsOf(q.next) {
			if a.t == t {
				return q, true
			}
		}
	}
	return nil, false
}

func (r *MRun) result(res types.Type) {
	st := structPtrT(res)
	if st == nil {
		panic(undecided("the type of the matrix"))
	}
	nt := types.Unalias(res.(*types.Pointer).Elem()).(*types.Named)
	n := 0
	var stored *PhiInfo
	for _, q := range r.rets {
		tv, ok := q.val.(*TupleVal)
		if !ok {
			panic(undecided("the results of " + fname(r.f)))
		}
		succ := and(q.g, errIsNil(tv.v[1]))
		if unsat(succ) {
			continue
		}
		for _, a := range altsOf(tv.v[0]) {
			g := and(succ, a.g)
			if unsat(g) {
				continue
			}
			if !r.must(a.t.op == "alloc", q.pos, "success is reported with the matrix %v", a.t) {
				continue
			}
			fld := func(name string) Val {
				h := fieldOf(nt, name)
				return r.e.loadVal(q.st, fieldAddr(a.t, h.Name(), h.Type()), h.Type())
			}
			for _, v := range altsOf(fld("Values")) {
				h := and(g, v.g)
				if unsat(h) {
					continue
				}
				k, post := r.when(v.t)
				if !r.must(k != nil, q.pos, "the values returned are not those of the lines @@%v", v.t) {
					continue
				}
				n++
				if stored != nil && stored != k {
					panic(undecided("the values of the matrix"))
				}
				first := stored == nil
				stored = k
				r.ends(h, post, q.pos)
				if r.csr {
					r.sparse(h, k, post, fld("RowHeaders"), fld("ColIndexes"), q.pos, first)
				} else {
					r.dense(h, k, post, fld("Rows"), fld("Cols"), q.pos, first)
				}
			}
		}
	}
	r.must(n > 0, r.f.Pos(), "no matrix is ever returned")
}

// ends: reading stops for no other reason than the end of the input or the
// limit.
func (r *MRun) ends(g *Node, post bool, pos token.Pos) {
	lim := not(le0(polyOf(r.limit)))
	if !post {
		why := or(r.blank(g), and(lim, le0(polyOf(sub(r.limit, r.L.iv)))))
		r.imply(g, why, pos, "reading stops before a line that is not empty")
		return
	}
	r.kept = or(r.kept, g)
	why := or(r.atEOF(g), and(lim, le0(polyOf(sub(r.limit, add(r.L.iv, intTerm(1)))))))
	r.imply(g, why, pos, "reading stops although there may be more lines")
}

// mstream: how the elements of a list are produced, line by line.
type mstream struct {
	l    *LoopInst // over the elements of one line
	g    *Node     // when an element is added
	el   []*Term   // alternatives are inside
	idx  *Term
	x    *Effect
	last *mstream // the list these elements are copied from
	from *Term
	fld  string // the field of its elements
}

// streamOf: the part of list k that one line adds.
func (r *MRun) streamOf(k *PhiInfo, what string) *mstream {
	i := one(k.init)
	if !r.must(i != nil && emptyList(i), r.rd.pos, "the %s do not start empty", what) {
		return nil
	}
	parts, _, why := r.e.buildOf(k.sym)
	if !r.must(why == "" && len(parts) == 1, r.rd.pos, "how the %s are collected @@%s", what, why) {
		return nil
	}
	return r.stream(parts[0], what, nil)
}

func emptyList(t *Term) bool {
	if t.op == "nil" {
		return true
	}
	if t.op == "make" || t.op == "slice" {
		k := 0
		if t.op == "slice" {
			k = 2
		}
		n, ok := t.args[k].intVal()
		return ok && n == 0
	}
	return false
}

func (r *MRun) stream(q *lpart, what string, sz *Term) *mstream {
	pos := q.x.pos
	if !r.must(len(q.x.loops) > 0 && q.x.loops[0] == r.L, pos, "the %s are not collected line by line", what) {
		return nil
	}
	if q.all != nil {
		// a list made for the line
		r.must(len(q.x.loops) == 1, pos, "the %s of a line are added several times", what)
		r.imply(r.L.back, q.x.guard, pos, "the "+what+" of a line are left out")
		return r.lineList(q.all, what, pos)
	}
	var el *Term
	if q.app != nil && len(q.el) == 1 {
		el = q.el[0]
	} else if q.idx != nil {
		el = toTerm(q.val)
	}
	if !r.must(el != nil && len(q.x.loops) == 2, pos, "the %s of a line are not added one by one", what) {
		return nil
	}
	s := &mstream{l: q.x.loops[1], g: q.x.guard, el: []*Term{el}, idx: q.idx, x: q.x}
	if q.idx != nil {
		r.imply(s.g, eq0(polyOf(sub(q.idx, s.l.iv))), pos, "the "+what+" of a line are not kept in order")
		if sz != nil {
			r.covered(sz, s.l.iv, pos, "the list of "+what+" of a line is not filled")
		}
	}
	// copied from another list made for the line?
	src, fld := el, ""
	if src.op == "load" {
		src = src.args[0]
	}
	if src.op == "field" {
		fld, src = src.aux, src.args[0]
	}
	if src.op == "load" {
		src = src.args[0]
	}
	if src.op == "index" {
		if l, ph := r.e.phiBySym(src.args[0]); ph != nil && l != s.l && l != r.L || src.args[0].op == "make" {
			r.imply(s.g, eq0(polyOf(sub(src.args[1], s.l.iv))), pos, "the "+what+" of a line are not taken in order")
			r.imply(s.l.back, s.g, pos, "a part of the line is left out of the "+what)
			r.covered(lenTerm(src.args[0]), s.l.iv, pos, "the rest of the line is left out of the "+what)
			s.from = src.args[0]
			s.last, s.fld = r.lineList(src.args[0], what, pos), fld
			if s.last == nil {
				return nil
			}
		}
	}
	return s
}

// covered: the loop counting iv has reached n when the line is done.
func (r *MRun) covered(n, iv *Term, pos token.Pos, what string) {
	for _, w := range []*Node{r.skip, not(r.skip)} {
		g := and(r.L.back, w)
		r.imply(g, le0(polyOf(sub(resolver(g).term(n), iv))), pos, what)
	}
}

// lineList: a list that is built anew for every line.
func (r *MRun) lineList(t *Term, what string, pos token.Pos) *mstream {
	var parts []*lpart
	var sz *Term
	var why string
	if _, ph := r.e.phiBySym(t); ph != nil {
		i := one(ph.init)
		if !r.must(i != nil && emptyList(i), pos, "the %s of a line do not start empty", what) {
			return nil
		}
		parts, sz, why = r.e.buildOf(t)
	} else {
		parts, sz, why = r.e.buildOf(t)
	}
	if !r.must(why == "" && len(parts) == 1, pos, "how the %s of a line are collected @@%s", what, why) {
		return nil
	}
	return r.stream(parts[0], what, sz)
}

// source: the stream that reads the line itself, and what field fld of its
// elements is.
func (s *mstream) source() (*mstream, *Term) {
	el, fld := s.el[0], ""
	for s.last != nil {
		if s.fld != "" {
			fld = s.fld
		}
		s = s.last
		el = s.el[0]
	}
	if fld != "" {
		if el.op == "struct" {
			st, ok := el.typ.Underlying().(*types.Struct)
			if !ok {
				return s, nil
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fld {
					return s, possible(s.g, el.args[i])
				}
			}
		}
		return s, nil
	}
	return s, el
}

// possible: the alternatives of t that g allows.
func possible(g *Node, t *Term) *Term {
	var gs []*Node
	var vs []Val
	as := altsOf(sc(t))
	for _, a := range as {
		if !unsat(and(g, a.g)) {
			gs, vs = append(gs, a.g), append(vs, sc(a.t))
		}
	}
	if len(vs) == 0 || len(vs) == len(as) {
		return t
	}
	if len(vs) == 1 {
		gs[0] = bd.T
	}
	return toTerm(mergeVals(gs, vs))
}

func (r *MRun) dense(g *Node, k *PhiInfo, post bool, rows, cols Val, pos token.Pos, first bool) {
	iv := r.L.iv
	n := iv
	if post {
		n = add(iv, intTerm(1))
	}
	r.must(r.always(g, rows, n), pos, "the number of rows is not the number of lines read @@%v", rows)
	// the number of columns
	var ck *PhiInfo
	for _, a := range altsOf(cols) {
		if unsat(and(g, a.g)) {
			continue
		}
		if q, _ := r.when(a.t); q != nil && isInteger(q.sym.typ) && (ck == nil || ck == q) {
			ck = q
		}
	}
	if !r.must(ck != nil, pos, "the number of columns is not that of the lines @@%v", cols) {
		return
	}
	if post {
		r.imply(g, r.sameVals(cols, ck.next), pos, "the number of columns is not that of the lines")
	} else {
		r.must(r.always(g, cols, ck.sym), pos, "the number of columns is not that of the lines @@%v", cols)
	}
	// each further return is reached from the same round
	cnt := r.added(k)
	if !r.must(cnt != nil, r.rd.pos, "how many values a line adds could not be decided") {
		return
	}
	in := r.L.back
	if post {
		in = or(in, g)
	}
	ok, cx := entails(and(in, r.facts), r.sameVals(ck.next, cnt))
	r.must(ok, r.rd.pos, "the number of columns is not the number of values of a line @@when %s", cut(litsStr(cx), 300))
	later := not(eq0(polyOf(iv)))
	ok, cx = entails(and(in, r.facts, later), r.same(ck.next, ck.sym))
	r.must(ok, r.rd.pos, "lines of different lengths are accepted @@when %s", cut(litsStr(cx), 300))
	if !first {
		return
	}
	s := r.streamOf(k, "values")
	if s == nil {
		return
	}
	if !r.csv {
		// the value stands in the column the line gives
		r.columns(s)
	}
	r.tokens(s, nil)
}

// added: the number of elements one line adds to the list.
func (r *MRun) added(k *PhiInfo) Val {
	if n := one(k.next); n != nil && n.op == "appendall" && n.args[0] == k.sym {
		return sc(lenTerm(n.args[1]))
	}
	if n := r.e.growth(r.L, k, 0); n != nil {
		return sc(n)
	}
	// one element in every round of a loop over the line
	var out Val
	for _, a := range altsOf(k.next) {
		if unsat(and(r.L.back, a.g)) {
			continue
		}
		l, q := r.e.phiBySym(a.t)
		if out != nil || l == nil || len(l.outer) == 0 || l.outer[len(l.outer)-1] != r.L || one(q.init) != k.sym {
			return nil
		}
		if n := r.e.growth(l, q, 0); n != intTerm(1) {
			return nil
		}
		s := &Scalar{}
		for _, w := range []*Node{r.skip, not(r.skip)} {
			n := r.e.tripAt(l, and(r.L.back, w), and(l.back, w))
			if n == nil {
				return nil
			}
			s.alts = append(s.alts, Alt{w, n})
		}
		out = s
	}
	return out
}

func (r *MRun) sameVals(a, b Val) *Node {
	out := bd.F
	for _, y := range altsOf(b) {
		out = or(out, and(y.g, r.same(a, y.t)))
	}
	return out
}

// columns: values are added only in the position their column number gives.
func (r *MRun) columns(s *mstream) {
	for q := s; q != nil; q = q.last {
		all, _ := entails(and(q.l.back, r.facts), q.g)
		if !all {
			continue
		}
		want := bd.F
		for _, a := range append(support(q.g), support(q.l.back)...) {
			// iv == the column of this element
			if a.op == "eq0" && (r.isColumn(sub(q.l.iv, a.args[0]), q) || r.isColumn(add(q.l.iv, a.args[0]), q)) {
				want = or(want, bd.atom(a))
			}
		}
		if want == bd.F {
			continue
		}
		r.imply(q.l.back, want, q.x.pos, "a value is kept in another column than the line gives")
		return
	}
	// checked beforehand or afterwards, in a loop of its own
	for q := s; q != nil && q.last != nil; q = q.last {
		R := q.from
		for _, l := range r.e.loopByID {
			if len(l.outer) == 0 || l.outer[len(l.outer)-1] != r.L || l == q.l {
				continue
			}
			always, _ := entails(r.L.back, l.entry)
			all, _ := entails(and(r.L.back, r.facts), le0(polyOf(sub(lenTerm(R), l.iv))))
			if !always || !all {
				continue
			}
			want := bd.F
			for _, a := range support(l.back) {
				if a.op != "eq0" {
					continue
				}
				for _, t := range []*Term{sub(l.iv, a.args[0]), add(l.iv, a.args[0])} {
					if t.op != "load" || t.args[0].op != "field" || t.args[0].args[0].op != "index" {
						continue
					}
					if at := t.args[0].args[0]; at.args[0] != R || at.args[1] != l.iv {
						continue
					}
					col := &mstream{l: q.l, g: q.g, el: []*Term{t}, x: q.x, last: q.last, fld: t.args[0].aux}
					if _, c := col.source(); c != nil && r.part(c) == 0 {
						want = or(want, bd.atom(a))
					}
				}
			}
			if ok, _ := entails(l.back, want); ok {
				r.must(true, q.x.pos, "")
				return
			}
		}
	}
	r.must(false, s.x.pos, "a value is kept in another column than the line gives")
}

// isColumn: t is the column number of the element of stream q.
func (r *MRun) isColumn(t *Term, q *mstream) bool {
	if q.last != nil {
		if t.op != "load" || t.args[0].op != "field" || t.args[0].args[0].op != "index" {
			return false
		}
		at := t.args[0].args[0]
		src := q.el[0]
		if src.op == "load" {
			src = src.args[0]
		}
		if src.op == "field" {
			src = src.args[0]
		}
		if at != src {
			return false
		}
		col := &mstream{l: q.l, g: q.g, el: []*Term{t}, x: q.x, last: q.last, fld: t.args[0].aux}
		_, c := col.source()
		return c != nil && r.part(c) == 0
	}
	return r.part(t) == 0
}

// part: which part of a column:value pair t is the number of (-1: none).
func (r *MRun) part(t *Term) int {
	if as := altsOf(sc(t)); len(as) > 1 {
		n := r.part(as[0].t)
		for _, a := range as {
			if r.part(a.t) != n {
				return -1
			}
		}
		return n
	}
	s, _ := parsed(t, types.Typ[types.Int])
	if s == nil {
		s, _ = parsed(t, types.Typ[types.Float64])
	}
	if s == nil {
		return -1
	}
	pair, i := cutAt(trimmed(s), ":")
	if pair == nil {
		return -1
	}
	n, ok := i.intVal()
	if !ok {
		return -1
	}
	return int(n)
}

func (r *MRun) sparse(g *Node, k *PhiInfo, post bool, heads, cols Val, pos token.Pos, first bool) {
	// all three lists are of the same round
	find := func(v Val, what string) *PhiInfo {
		var out *PhiInfo
		for _, a := range altsOf(v) {
			h := and(g, a.g)
			if unsat(h) {
				continue
			}
			q, p := r.when(a.t)
			if !r.must(q != nil && (out == nil || out == q), pos, "the %s are not those of the lines @@%v", what, a.t) {
				return nil
			}
			r.must(p == post, pos, "the %s are not of the same lines as the values", what)
			out = q
		}
		return out
	}
	hk, ck := find(heads, "row pointers"), find(cols, "column indices")
	if hk == nil || ck == nil || !first {
		return
	}
	i := one(hk.init)
	z := false
	if i != nil && i.op == "append" && len(i.args) == 2 && emptyList(i.args[0]) {
		n, ok := i.args[1].intVal()
		z = ok && n == 0
	}
	if i != nil && !z {
		z = r.oneZero(i)
	}
	s, t := r.streamOf(k, "values"), r.streamOf(ck, "column indices")
	if s == nil || t == nil {
		return
	}
	r.must(z, r.rd.pos, "the row pointers do not start with 0 alone @@%v", i)
	for _, a := range altsOf(hk.next) {
		h := and(r.L.back, a.g)
		if unsat(h) {
			continue
		}
		ok := a.t.op == "append" && len(a.t.args) == 2 && a.t.args[0] == hk.sym
		if ok {
			n := a.t.args[1]
			ok = false
			if n.op == "len" {
				q, p := r.when(n.args[0])
				ok = p && (q == k || q == ck)
			} else if s.from != nil {
				// the previous one and the number of elements of the line
				end := sub(lenTerm(hk.sym), intTerm(1))
				findSub(n, func(u *Term) bool {
					if u.op == "load" && u.args[0].op == "index" && u.args[0].args[0] == hk.sym && u.args[0].args[1] == end {
						ok = sub(sub(n, u), lenTerm(s.from)) == intTerm(0)
					}
					return false
				})
			}
		}
		r.must(ok, r.rd.pos, "a line does not add one row pointer with the number of values so far @@%v", a.t)
	}
	a, _ := s.source()
	b, col := t.source()
	same := a.l == b.l && s.l == t.l
	if same {
		ok1, _ := equivTh(a.g, b.g, r.facts)
		ok2, _ := equivTh(s.g, t.g, r.facts)
		same = ok1 && ok2
	}
	if r.must(same, r.rd.pos, "values and column indices are not added together") {
		r.tokens(s, col)
	}
}

// oneZero: a list made of the single element 0.
func (r *MRun) oneZero(t *Term) bool {
	var base *Term
	if t.op == "slice" && t.args[0].op == "alloc" {
		n, ok := t.args[2].intVal()
		m, ok2 := t.args[1].intVal()
		if !ok || !ok2 || n != 1 || m != 0 {
			return false
		}
		base = t.args[0]
	} else if t.op == "make" {
		n, ok := t.args[0].intVal()
		if !ok || n != 1 {
			return false
		}
		base = t
	} else {
		return false
	}
	for _, x := range r.e.effects {
		if x.kind == "store" && x.addr.op == "index" && x.addr.args[0] == base {
			v := one(x.val)
			if v == nil {
				return false
			}
			if n, ok := v.intVal(); !ok || n != 0 {
				return false
			}
		}
	}
	return true
}

// tokens: the numbers are those of the line, all of them.
func (r *MRun) tokens(s *mstream, col *Term) {
	src, val := s.source()
	if !r.must(val != nil, s.x.pos, "what is kept as a value could not be decided") {
		return
	}
	l := src.l
	pos := src.x.pos
	skip := r.skip
	// the list of fields of the line, and which one is taken
	var list *Term
	field := func(t *Term, g *Node) bool {
		if t == nil {
			return false
		}
		t = trimmed(t)
		if t.op != "load" || t.args[0].op != "index" {
			return false
		}
		F, i := t.args[0].args[0], t.args[0].args[1]
		if !isCall(F, "strings.Split", "strings.Fields") || !r.trim(F.args[0]) {
			return false
		}
		if isCall(F, "strings.Split") {
			if r.csv && F.args[1] != r.delim {
				return false
			}
			if d, ok := F.args[1].strVal(); !r.csv && (!ok || d != " ") {
				return false
			}
		} else if r.csv {
			return false
		}
		if list != nil && list != F {
			return false
		}
		list = F
		a, _ := entails(and(g, skip, r.facts), eq0(polyOf(sub(i, add(l.iv, intTerm(1))))))
		b, _ := entails(and(g, not(skip), r.facts), eq0(polyOf(sub(i, l.iv))))
		return a && b
	}
	empty := func(g *Node) *Node {
		out := bd.F
		for _, a := range support(g) {
			if t := emptyTest(a); t != nil && t.op == "load" {
				at := bd.F
				if ok := field(t, and(g, skip)) && field(t, and(g, not(skip))); ok {
					at = bd.T
				} else if field(t, and(g, skip, bd.atom(a))) || field(t, and(g, not(skip), bd.atom(a))) {
					at = bd.T
				} else {
					i := t.args[0].args
					if len(i) == 2 && i[0] == list && list != nil {
						at = or(and(skip, eq0(polyOf(sub(i[1], add(l.iv, intTerm(1)))))), and(not(skip), eq0(polyOf(sub(i[1], l.iv)))))
					}
				}
				out = or(out, and(bd.atom(a), at))
			}
		}
		return out
	}
	n := 0
	for _, a := range altsOf(sc(val)) {
		g := and(src.g, a.g)
		if unsat(and(g, r.facts)) {
			continue
		}
		n++
		if r.csv && a.t == r.def {
			continue // below
		}
		t := resolver(and(g, r.facts)).term(a.t)
		tok, why := parsed(t, types.Typ[types.Float64])
		if r.csv {
			r.must(field(tok, g), pos, "a value is not the number in its field of the line %s @@%v", why, t)
			continue
		}
		pair, i := (*Term)(nil), (*Term)(nil)
		if tok != nil {
			pair, i = cutAt(trimmed(tok), ":")
		}
		ok := false
		if pair != nil {
			m, isC := i.intVal()
			ok = isC && m == 1 && field(pair, g)
		}
		r.must(ok, pos, "a value is not the number after the colon of its field %s @@%v", why, t)
		if ok && isCall(tok.args[0].args[0], "strings.Split") {
			pl := lenTerm(tok.args[0].args[0])
			r.imply(and(g, splitFacts(g)), eq0(polyOf(sub(pl, intTerm(2)))), pos, "a field with more than one colon is accepted")
		}
	}
	r.must(n > 0, pos, "no value is ever kept")
	if !r.must(list != nil, pos, "the fields of the line could not be decided") {
		return
	}
	if r.csv {
		for _, a := range altsOf(sc(val)) {
			if g := and(src.g, a.g); a.t == r.def && !unsat(and(g, r.facts)) {
				r.imply(g, empty(g), pos, "the default is used for a field that is not empty")
			}
		}
	}
	if col != nil {
		for _, a := range altsOf(sc(col)) {
			g := and(src.g, a.g)
			if unsat(and(g, r.facts)) {
				continue
			}
			t := resolver(and(g, r.facts)).term(a.t)
			if r.csv {
				r.imply(g, eq0(polyOf(sub(t, l.iv))), pos, "a value is kept in another column than its own")
				continue
			}
			num, why := parsed(t, types.Typ[types.Int])
			ok := false
			if num != nil {
				pair, i := cutAt(trimmed(num), ":")
				if pair != nil {
					m, isC := i.intVal()
					ok = isC && m == 0 && field(pair, g)
				}
			}
			r.must(ok, pos, "a column index is not the number before the colon of its field %s @@%v", why, t)
			if findSub(t, func(u *Term) bool { return isCall(u, "strconv.ParseUint") }) == nil {
				r.imply(g, le0(polyOf(sub(intTerm(0), t))), pos, "a negative column index is accepted")
			}
		}
	}
	// every field
	for _, w := range []struct {
		g *Node
		k int64
	}{{skip, 1}, {not(skip), 0}} {
		r.imply(and(r.L.back, w.g), le0(polyOf(sub(lenTerm(list), add(l.iv, intTerm(w.k))))), pos, "the rest of a line is left out")
		miss := and(l.back, w.g, not(src.g))
		if unsat(and(miss, r.facts)) {
			continue
		}
		if r.csv {
			r.must(false, pos, "a field of a line is left out")
			continue
		}
		r.imply(miss, empty(miss), pos, "a field of a line is left out")
	}
}

// matFile: the file variant passes on its arguments.
func (p *Program) matFile(c *Ctx, f *ssa.Function) {
	step := p.stepFn()
	e, rets := p.runRoot(f, func(g *ssa.Function) bool {
		return g != f && step(g) && !takesFile(g.Signature) && !givesFile(g.Signature) && !takesFunc(g)
	})
	c.analysed(f)
	ps := e.symParams(f)
	var x *Effect
	for _, y := range e.effects {
		if calls(y) && y.fn != nil && e.inModule(y.fn) && errResult(y.fn.Signature) {
			c.must(x == nil, "file", f, y.pos, "several matrices are read")
			x = y
		}
	}
	if !c.must(x != nil, "file", f, f.Pos(), "no matrix is read") {
		return
	}
	c.must(x.fn.Name()+"File" == f.Name(), "file", f, x.pos, "%s reads the matrix with %s", f.Name(), x.fn.Name())
	same := len(x.args) == len(ps)
	for i := 1; same && i < len(ps); i++ {
		same = sameVal(x.args[i], ps[i])
	}
	c.must(same, "file", f, x.pos, "other arguments are passed on than were given")
	// the reader stands over the file of that name
	named := false
	for _, y := range e.effects {
		if _, is := fileOpeners[y.name]; is && calls(y) && len(y.args) > 0 && one(y.args[0]) == one(ps[0]) {
			F := resAt(y, 0)
			named = F != nil && len(x.args) > 0 && one(x.args[0]) != nil && over(e, F)[deIface(one(x.args[0]))]
		}
	}
	c.must(named, "file", f, x.pos, "the matrix is not read from the file of the given name")
	n := 0
	for _, q := range rets {
		tv, ok := q.val.(*TupleVal)
		if !ok || len(tv.v) != 2 {
			panic(undecided("the results of " + fname(f)))
		}
		ok1 := and(q.g, errIsNil(tv.v[1]))
		if unsat(ok1) {
			continue
		}
		n++
		for _, a := range altsOf(tv.v[0]) {
			if unsat(and(ok1, a.g)) {
				continue
			}
			c.must(a.t == resAt(x, 0), "file", f, q.pos, "another matrix is returned")
		}
	}
	c.must(n > 0, "file", f, f.Pos(), "no matrix is ever returned")
}

// matConstructors: matrices made of arrays.
func (p *Program) matConstructors(c *Ctx) {
	const rule = "array"
	run := func(name string, fn func(f *ssa.Function, e *Engine, rets []retEdge, ps []Val)) {
		f := p.fn("mat", name)
		c.guarded(rule, f, func() {
			e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
			c.analysed(f)
			fn(f, e, rets, e.symParams(f))
		})
	}
	is := func(c *Ctx, f *ssa.Function, g *Node, v Val, t *Term, pos token.Pos, what string) {
		m := &MRun{facts: bd.T}
		ok, cx := entails(g, m.same(v, t))
		c.must(ok, rule, f, pos, "%s @@when %s", what, cut(litsStr(cx), 300))
	}
	fld := func(v Val, name string) Val {
		s, ok := v.(*StructVal)
		if !ok {
			panic(undecided("the matrix returned"))
		}
		return fieldByName(s, name)
	}
	run("DenseMatZero", func(f *ssa.Function, e *Engine, rets []retEdge, ps []Val) {
		for _, q := range rets {
			rows, cols := one(ps[0]), one(ps[1])
			is(c, f, q.g, fld(q.val, "Rows"), rows, q.pos, "the number of rows is another one")
			is(c, f, q.g, fld(q.val, "Cols"), cols, q.pos, "the number of columns is another one")
			v := one(fld(q.val, "Values"))
			ok := v != nil && v.op == "make"
			if ok {
				ok, _ = entails(q.g, eq0(polyOf(sub(v.args[0], mul(rows, cols)))))
			}
			for _, x := range e.effects {
				if x.kind == "store" && x.addr.op == "index" && x.addr.args[0] == v {
					ok = false
				}
			}
			c.must(ok, rule, f, q.pos, "the values are not rows*columns zeros @@%v", v)
		}
	})
	// the values as given, or a copy of them
	given := func(f *ssa.Function, e *Engine, g *Node, v, vals *Term, pos token.Pos) {
		if v != nil && v.op == "make" {
			// a new list of that length, copied into
			full, _ := entails(g, eq0(polyOf(sub(v.args[0], lenTerm(vals)))))
			n := 0
			for _, x := range e.effects {
				switch {
				case x.kind == "copy" && len(x.args) == 2 && one(x.args[0]) == v:
					always, _ := entails(g, x.guard)
					full = full && always && one(x.args[1]) == vals
					n++
				case x.kind == "store" && x.addr.op == "index" && x.addr.args[0] == v:
					full = false
				}
			}
			c.must(full && n == 1, rule, f, pos, "the values are not those given @@%v", v)
			return
		}
		ok := v == vals || v != nil && v.op == "appendall" && emptyList(v.args[0]) && v.args[1] == vals
		c.must(ok, rule, f, pos, "the values are not those given @@%v", v)
	}
	shape := func(f *ssa.Function, ok *Node, ps []Val, pos token.Pos) {
		good, cx := entails(ok, eq0(polyOf(sub(mul(one(ps[1]), one(ps[2])), lenTerm(one(ps[0]))))))
		c.must(good, rule, f, pos, "values that do not fill the matrix are accepted @@when %s", cut(litsStr(cx), 300))
	}
	each := func(f *ssa.Function, rets []retEdge, fn func(q retEdge, m Val, ok *Node)) {
		n := 0
		for _, q := range rets {
			tv, is := q.val.(*TupleVal)
			if !is || len(tv.v) != 2 {
				panic(undecided("the results of " + fname(f)))
			}
			ok := and(q.g, errIsNil(tv.v[1]))
			if !unsat(ok) {
				n++
				fn(q, tv.v[0], ok)
			}
		}
		c.must(n > 0, rule, f, f.Pos(), "%s never succeeds", fname(f))
	}
	run("DenseMatFromArray", func(f *ssa.Function, e *Engine, rets []retEdge, ps []Val) {
		each(f, rets, func(q retEdge, m Val, ok *Node) {
			shape(f, ok, ps, q.pos)
			given(f, e, ok, pick(ok, fld(m, "Values")), one(ps[0]), q.pos)
			is(c, f, ok, fld(m, "Rows"), one(ps[1]), q.pos, "the number of rows is another one")
			is(c, f, ok, fld(m, "Cols"), one(ps[2]), q.pos, "the number of columns is another one")
		})
	})
	run("CSRMatFromArray", func(f *ssa.Function, e *Engine, rets []retEdge, ps []Val) {
		each(f, rets, func(q retEdge, m Val, ok *Node) {
			rows, cols := one(ps[1]), one(ps[2])
			shape(f, ok, ps, q.pos)
			given(f, e, ok, pick(ok, fld(m, "Values")), one(ps[0]), q.pos)
			p.csrLists(c, f, e, ok, pick(ok, fld(m, "RowHeaders")), pick(ok, fld(m, "ColIndexes")), rows, cols, q.pos)
		})
	})
	f := p.fn("mat", "CSRMat.Rows")
	c.guarded(rule, f, func() {
		e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
		c.analysed(f)
		m := one(e.symParams(f)[0])
		h := fieldOf(p.typ("mat", "CSRMat"), "RowHeaders")
		n := lenTerm(one(e.loadVal(newState(), fieldAddr(m, h.Name(), h.Type()), h.Type())))
		for _, q := range rets {
			none := eq0(polyOf(n))
			is(c, f, and(q.g, not(none)), q.val, sub(n, intTerm(1)), q.pos, "the number of rows is not one less than the number of row pointers")
			is(c, f, and(q.g, none), q.val, intTerm(0), q.pos, "an empty matrix has rows")
		}
	})
}

// csrLists: row pointers i*cols (i = 0..rows) and columns 0..cols-1 per row.
func (p *Program) csrLists(c *Ctx, f *ssa.Function, e *Engine, ok *Node, heads, idx, rows, cols *Term, pos token.Pos) {
	const rule = "array"
	if !c.must(heads != nil && idx != nil, rule, f, pos, "row pointers and columns could not be decided") {
		return
	}
	nonneg := and(le0(polyOf(sub(intTerm(0), rows))), le0(polyOf(sub(intTerm(0), cols))))
	val := func(q *lpart) *Term {
		var t *Term
		if q.app != nil && len(q.el) == 1 {
			t = q.el[0]
		} else if q.idx != nil {
			t = one(q.val)
		}
		if t == nil {
			return nil
		}
		return newRewriter(func(u *Term) *Term {
			if u.op == "len" {
				return e.grown(u.args[0])
			}
			return nil
		}).term(t)
	}
	eq := func(g *Node, a, b *Term) bool {
		ok, _ := entails(and(g, nonneg), eq0(polyOf(sub(a, b))))
		return ok
	}
	ps, sz, why := e.buildOf(idx)
	good := why == "" && len(ps) == 1 && len(ps[0].x.loops) == 2 && val(ps[0]) != nil
	if c.must(good, rule, f, pos, "how the columns are listed @@%s", why) {
		x := ps[0].x
		lo, li := x.loops[0], x.loops[1]
		a, _ := e.doneAt(lo, sc(rows), and(ok, nonneg), lo.back)
		b, _ := e.doneAt(li, sc(cols), and(lo.back, nonneg), li.back)
		d, _ := entails(li.back, x.guard)
		c.must(a && b && d, rule, f, x.pos, "the columns are not listed once for every value")
		c.must(eq(x.guard, val(ps[0]), li.iv), rule, f, x.pos, "the column of value %v of a row is %v", li.iv, val(ps[0]))
		if sz != nil {
			c.must(eq(ok, sz, mul(rows, cols)) || eq(ok, sz, lenTerm(one(e.symParams(f)[0]))), rule, f, x.pos, "the number of columns listed is %v", sz)
			c.must(eq(x.guard, ps[0].idx, add(mul(lo.iv, cols), li.iv)), rule, f, x.pos, "a column is listed in place %v", ps[0].idx)
		}
	}
	ps, sz, why = e.buildOf(heads)
	if !c.must(why == "" && len(ps) > 0, rule, f, pos, "how the row pointers are listed @@%s", why) {
		return
	}
	if sz != nil {
		c.must(eq(ok, sz, add(rows, intTerm(1))), rule, f, pos, "the number of row pointers is %v", sz)
	}
	// appended: the place of part k is the number of elements before it
	at := intTerm(0)
	var count *Term = intTerm(0)
	for _, q := range ps {
		v := val(q)
		if !c.must(v != nil && len(q.x.loops) <= 1, rule, f, q.x.pos, "how the row pointers are listed") {
			return
		}
		place := q.idx
		var trips *Term = intTerm(1)
		if len(q.x.loops) == 1 {
			l := q.x.loops[0]
			all, _ := entails(l.back, q.x.guard)
			trips = e.tripTerm(l, and(ok, nonneg))
			if !c.must(all && trips != nil, rule, f, q.x.pos, "whether every row pointer is listed") {
				return
			}
			at = l.iv
		} else {
			all, _ := entails(ok, q.x.guard)
			c.must(all, rule, f, q.x.pos, "a row pointer is left out")
			at = intTerm(0)
		}
		if place == nil {
			place = add(count, at)
		}
		at2 := q.x.guard
		if len(q.x.loops) == 0 {
			at2 = and(at2, ok)
		}
		v = substDone(e, q, v, and(at2, nonneg))
		c.must(eq(at2, v, mul(place, cols)), rule, f, q.x.pos, "row pointer %v is %v", place, v)
		count = add(count, trips)
	}
	if sz == nil {
		c.must(eq(ok, count, add(rows, intTerm(1))), rule, f, pos, "there are %v row pointers", count)
	}
}

// substDone replaces counters of loops that have ended by their end values.
func substDone(e *Engine, q *lpart, t *Term, g *Node) *Term {
	return newRewriter(func(u *Term) *Term {
		for _, l := range e.loopByID {
			if u == l.iv && !inLoop(q.x, l) {
				if n := e.tripTerm(l, g); n != nil {
					return n
				}
			}
		}
		return nil
	}).term(t)
}

func init() {
	reg("C21", ruleMat, symText+"Rule: for every matrix reader, per round of the loop that reads lines: a round adds one row (row counter, or exactly one row pointer equal to the number of values so far, starting from 0), as many values as the number of columns, which later rounds cannot change; every field of the trimmed line adds its value, parsed without loss, in its own column (the given column for libsvm, the default for empty csv fields); the fields of the matrix returned are all from before or all from after the last line; reading stops only at a blank line, the end of the input or the limit, which is never exceeded; file variants pass on their arguments and result; constructors make the shape they are asked for; errors are never lost.", asmInts, asmFloat, "strings.Split, strings.TrimFunc and strconv behave as documented")
}

func fieldByName(s *StructVal, name string) Val {
	st := s.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.f[i]
		}
	}
	panic(undecided("no field " + name))
}

func sameVal(a, b Val) bool {
	_, x := a.(BoolVal)
	_, y := b.(BoolVal)
	if x || y {
		return asBool(a) == asBool(b)
	}
	return one(a) != nil && one(a) == one(b)
}

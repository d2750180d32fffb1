package main

// C19: the pickle machine. One round of the decoder's loop is evaluated
// symbolically; for every opcode the stack, the marks and the memo after the
// round are compared with what the protocol defines.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const pkRule = "opcode"

// pkLine: one operand line read from the file.
type pkLine struct {
	l   *LoopInst
	x   *Effect // the read
	x0  *Effect // the read before the loop, of a line whose first byte is read there
	val *Term   // the line without its end
	txt *Term   // a call that returns the line and its end
}

type pkRun struct {
	p     *Program
	c     *Ctx
	f     *ssa.Function
	e     *Engine
	rets  []retEdge
	L     *LoopInst
	op    *Term
	codes []int64
	stack *PhiInfo
	marks *PhiInfo
	first *Effect // the read of the opcode
	rd    *Term
	lines []*pkLine
	keys  map[int64]*Term // memo keys
	memo  map[int64]*Term
	types map[string]bool // types asserted by the readers of the result
}

func (r *pkRun) must(ok bool, pos token.Pos, format string, args ...interface{}) bool {
	return r.c.must(ok, pkRule, r.f, pos, format, args...)
}

func (r *pkRun) eqOp(c int64) *Node { return eq0(polyOf(sub(r.op, intTerm(c)))) }

// sel: the opcode is c (-1: none of those handled).
func (r *pkRun) sel(c int64) *Node {
	g := bd.T
	for _, k := range r.codes {
		if k == c {
			g = and(g, r.eqOp(k))
		} else {
			g = and(g, not(r.eqOp(k)))
		}
	}
	return g
}

func rulePickle(p *Program, c *Ctx) {
	var dec *ssa.Function
	nd := p.fnOpt("internal/pickle", "NewDecoder")
	if c.must(nd != nil, pkRule, nil, 0, "the pickle decoder was not found") {
		dec = p.prog.LookupMethod(nd.Signature.Results().At(0).Type(), nd.Pkg.Pkg, "Decode")
	}
	if !c.must(dec != nil, pkRule, nil, 0, "the method Decode of the pickle decoder was not found") {
		return
	}
	c.guarded(pkRule, dec, func() { p.pickleMachine(c, dec) })
	c.floor(pkRule, 100)
}

func (p *Program) pickleMachine(c *Ctx, f *ssa.Function) {
	e, rets := p.runRoot(f, func(*ssa.Function) bool { return false })
	c.analysed(f)
	r := &pkRun{p: p, c: c, f: f, e: e, rets: rets, keys: map[int64]*Term{}, memo: map[int64]*Term{}}
	if !r.find() || !r.readLines() {
		return
	}
	r.asserted()
	type spec struct {
		n    int // operand lines
		f    func(s *pkState)
		need bool
	}
	specs := map[int64]spec{
		'(': {0, r.opMark, true}, 'p': {1, r.opPut, true}, 'g': {1, r.opGet, true}, 'c': {2, r.opGlobal, true},
		'L': {1, r.opLong, true}, 'I': {1, r.opInt, true}, 'F': {1, r.opFloat, true}, 't': {0, r.opTuple, true},
		'l': {0, r.opList, true}, 'a': {0, r.opAppend, true}, 'V': {1, r.opUnicode, true}, 'R': {0, r.opReduce, true},
		'N': {0, r.opNone, true}, 'b': {0, r.opBuild, true}, 'd': {0, r.opDict, true}, 's': {0, r.opSetitem, true},
		'0': {0, r.opPop, false}, '1': {0, r.opPopMark, false}, '2': {0, r.opDup, false},
	}
	var order []int
	for k := range specs {
		order = append(order, int(k))
	}
	sort.Ints(order)
	for _, k := range order {
		op, sp := int64(k), specs[int64(k)]
		on := and(r.L.back, r.sel(op))
		has := false
		for _, k := range r.codes {
			has = has || k == op
		}
		if !has || unsat(on) {
			r.must(!sp.need, f.Pos(), "opcode %q is not executed", rune(op))
			continue
		}
		s := &pkState{r: r, op: op, g: on}
		r.c.guarded(pkRule, f, func() {
			if s.operands(sp.n) && s.result() {
				sp.f(s)
				s.frame()
			}
			s.refused()
		})
	}
	for _, k := range r.codes {
		if _, ok := specs[k]; !ok && k != '.' {
			r.must(unsat(and(r.L.back, r.sel(k))), f.Pos(), "opcode %q is executed, but what it does is not known", rune(k))
			r.must(r.noSuccess(r.sel(k)), f.Pos(), "opcode %q ends the program", rune(k))
		}
	}
	r.stop()
	r.unknown()
	r.memoKeys()
}

// find: the loop over opcodes, the opcode, the stack and the marks.
func (r *pkRun) find() bool {
	for _, x := range r.e.effects {
		if calls(x) && len(x.loops) == 1 && byteRead(x.name) && x.gor == 0 {
			if r.first == nil {
				r.first, r.L = x, x.loops[0]
			} else if x.loops[0] == r.L {
				// operands read without a loop are looked at with the lines
				continue
			}
		}
	}
	if !r.must(r.first != nil, r.f.Pos(), "the loop that reads opcodes was not found") {
		return false
	}
	cnt := map[*Term]map[int64]bool{}
	note := func(g *Node) {
		for _, a := range support(g) {
			if a.op != "eq0" {
				continue
			}
			ms := polyOf(a.args[0])
			var v *Term
			var k int64
			bad := false
			for _, m := range ms {
				switch {
				case len(m.fs) == 0:
					k = -m.c
				case len(m.fs) == 1 && m.c == 1 && v == nil:
					v = m.fs[0]
				default:
					bad = true
				}
			}
			if bad || v == nil || !r.isOpcode(v) {
				continue
			}
			if cnt[v] == nil {
				cnt[v] = map[int64]bool{}
			}
			cnt[v][k] = true
		}
	}
	note(r.L.back)
	for _, g := range r.L.exits {
		note(g)
	}
	for _, q := range r.rets {
		note(q.g)
	}
	for v, ks := range cnt {
		if r.op == nil || len(ks) > len(cnt[r.op]) {
			r.op = v
		}
	}
	if !r.must(r.op != nil && len(cnt[r.op]) > 5, r.first.pos, "the opcode that decides what is done was not found") {
		return false
	}
	for k := range cnt[r.op] {
		r.codes = append(r.codes, k)
	}
	sort.Slice(r.codes, func(i, j int) bool { return r.codes[i] < r.codes[j] })
	for _, ph := range append(append([]*PhiInfo{}, r.L.phis...), r.L.mem...) {
		if ph.sym == nil || ph.sym.typ == nil {
			continue
		}
		sl, ok := ph.sym.typ.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if types.IsInterface(sl.Elem()) {
			if !r.must(r.stack == nil, r.L.pos, "there is more than one stack") {
				return false
			}
			r.stack = ph
		} else if isInt(sl.Elem()) && intBits(sl.Elem()) >= 32 {
			if !r.must(r.marks == nil, r.L.pos, "there is more than one list of marks") {
				return false
			}
			r.marks = ph
		}
	}
	if !r.must(r.stack != nil && r.marks != nil, r.L.pos, "the stack and the marks of the machine were not found") {
		return false
	}
	r.rd = readerOf(r.first)
	return r.must(r.rd != nil, r.first.pos, "where opcodes are read from was not found")
}

func byteRead(n string) bool {
	switch n {
	case "(io.Reader).Read", "(*bufio.Reader).Read", "(*bufio.Reader).ReadByte", "(io.ByteReader).ReadByte", "io.ReadFull":
		return true
	}
	return false
}

func readerOf(x *Effect) *Term {
	if x.addr != nil {
		return x.addr
	}
	if len(x.args) > 0 {
		return one(x.args[0])
	}
	return nil
}

// byteOf: t is the byte read by x.
func (e *Engine) byteOf(t *Term, x *Effect) bool {
	if x == nil || t == nil {
		return false
	}
	if shortName(x.name) == "ReadByte" || hasSuffix(x.name, ".ReadByte") {
		return t == resAt(x, 0)
	}
	if t.op == "load" && len(t.args) > 0 && t.args[0].op == "index" {
		if b := bufOf(x); b != nil {
			base, lo, n := sliceBase(b)
			i := t.args[0].args[1]
			if base == nil || lo == nil || n == nil {
				return false
			}
			k, ok := sub(n, lo).intVal()
			return ok && k == 1 && t.args[0].args[0] == base && i == lo && t.aux != ""
		}
	}
	return false
}

// bufOf: where a Read puts the bytes.
func bufOf(x *Effect) *Term {
	if len(x.args) == 0 {
		return nil
	}
	return one(x.args[len(x.args)-1])
}

func (r *pkRun) isOpcode(t *Term) bool { return r.e.byteOf(t, r.first) }

// readLines lists the operand lines.
func (r *pkRun) readLines() bool {
	rd := map[*Term]bool{r.rd: true}
	var first []*Effect
	for _, x := range r.e.effects {
		if !calls(x) || x == r.first || readerOf(x) != r.rd && !uses(x, rd) {
			continue
		}
		if !inLoop(x, r.L) {
			r.must(false, x.pos, "bytes are read outside the loop over opcodes by %s", shortName(x.name))
			return false
		}
		q := &pkLine{x: x}
		switch {
		case hasSuffix(x.name, ".ReadBytes") || hasSuffix(x.name, ".ReadString"):
			nl, ok := one(x.args[len(x.args)-1]).intVal()
			if !r.must(ok && nl == '\n' && len(x.loops) == 1, x.pos, "a line does not end at a line feed") {
				return false
			}
			q.txt = resAt(x, 0)
		case byteRead(x.name) && len(x.loops) == 2 && x.loops[0] == r.L:
			q.l = x.loops[1]
			for i, y := range first {
				if y != nil && y.in == x.in && !unsat(and(q.l.entry, y.guard)) {
					q.x0, first[i] = y, nil
				}
			}
			if !r.lineLoop(q) {
				return false
			}
		case byteRead(x.name) && len(x.loops) == 1 && x.loops[0] == r.L:
			first = append(first, x)
			continue
		default:
			r.must(false, x.pos, "what %s reads is not known", shortName(x.name))
			return false
		}
		r.lines = append(r.lines, q)
	}
	for _, y := range first {
		if y != nil {
			r.must(false, y.pos, "what %s reads is not known", shortName(y.name))
			return false
		}
	}
	sort.SliceStable(r.lines, func(i, j int) bool { return r.lines[i].x.seq < r.lines[j].x.seq })
	return r.must(len(r.lines) > 0, r.f.Pos(), "no operand lines are read")
}

// lineLoop: bytes are appended until a line feed.
func (r *pkRun) lineLoop(q *pkLine) bool {
	l := q.l
	for _, ph := range l.phis {
		if ph.sym == nil || ph.sym.typ == nil {
			continue
		}
		sl, ok := ph.sym.typ.Underlying().(*types.Slice)
		if !ok || !isInt(sl.Elem()) || intBits(sl.Elem()) != 8 {
			continue
		}
		if !r.must(q.val == nil, q.x.pos, "a line is collected in more than one list") {
			return false
		}
		i := one(ph.init)
		if !r.must(i != nil && emptyList(i), q.x.pos, "a line does not start empty") {
			return false
		}
		v := pick(l.back, ph.next)
		if !r.must(v != nil && v.op == "append" && v.args[0] == ph.sym && len(v.args) == 2 && (r.e.byteOf(v.args[1], q.x) || r.lastByte(q, v.args[1])), q.x.pos, "not every byte of a line is kept: %v", v) {
			return false
		}
		q.val = ph.sym
		b := v.args[1]
		nl := eq0(polyOf(sub(b, intTerm('\n'))))
		// on a byte read without error, the loop goes on unless it is a line feed
		good := r.noError(q.x)
		if q.x0 != nil {
			good = r.goodBefore(q)
			ok, cx := entails(l.back, good)
			if !r.must(ok, q.x.pos, "a line goes on after a failure @@when %s", cut(litsStr(cx), 200)) {
				return false
			}
		}
		okB, cx := entails(l.back, not(nl))
		if !r.must(okB, q.x.pos, "a line goes on after a line feed @@when %s", cut(litsStr(cx), 200)) {
			return false
		}
		for _, g := range l.exits {
			ok, cx := entails(and(g, good), nl)
			if !r.must(ok, q.x.pos, "a line ends before its line feed @@when %s", cut(litsStr(cx), 200)) {
				return false
			}
		}
	}
	return r.must(q.val != nil, q.x.pos, "the bytes of a line are not kept")
}

// lastByte: t is the byte read last, before the loop or in the round before.
func (r *pkRun) lastByte(q *pkLine, t *Term) bool {
	if q.x0 == nil {
		return false
	}
	for _, ph := range q.l.phis {
		if ph.sym != t {
			continue
		}
		a, b := pick(and(q.l.entry, r.noError(q.x0)), ph.init), pick(and(q.l.back, r.noError(q.x)), ph.next)
		return a != nil && b != nil && r.e.byteOf(a, q.x0) && r.e.byteOf(b, q.x)
	}
	return false
}

// goodBefore: the read before this round had no error.
func (r *pkRun) goodBefore(q *pkLine) *Node {
	g := bd.T
	for _, ph := range errPhis(q.l) {
		in, nx := errIsNil(ph.init), errIsNil(ph.next)
		a, b := r.noError(q.x0), r.noError(q.x)
		same := unsat(and(q.l.entry, q.x0.guard, a, not(in))) && unsat(and(q.l.entry, q.x0.guard, not(a), in)) &&
			unsat(and(q.l.back, q.x.guard, b, not(nx))) && unsat(and(q.l.back, q.x.guard, not(b), nx))
		if same {
			g = and(g, errIsNil(sc(ph.sym)))
		}
	}
	return g
}

// noError: the call x succeeded, with the whole buffer.
func (r *pkRun) noError(x *Effect) *Node {
	g := bd.T
	if v := errOf(x); v != nil {
		g = errIsNil(v)
	}
	if n := resAt(x, 0); n != nil && (hasSuffix(x.name, ".Read") || x.name == "io.ReadFull") {
		g = and(g, eq0(polyOf(sub(n, intTerm(1)))))
	}
	return g
}

// lineOf: t is the text of which line.
func (r *pkRun) lineOf(t *Term) *pkLine {
	t = textOf(t)
	for _, q := range r.lines {
		if q.val != nil && t == q.val {
			return q
		}
		if q.txt != nil {
			if t.op == "slice" && textOf(t.args[0]) == q.txt && isZeroI(t.args[1]) && t.args[2] == sub(lenTerm(t.args[0]), intTerm(1)) {
				return q
			}
			if memCall(t, "strings.TrimSuffix", "bytes.TrimSuffix") && textOf(t.args[0]) == q.txt && r.bytesConst(t.args[1]) == "\n" {
				return q
			}
		}
	}
	return nil
}

// lineCut: t is a line without its last k characters.
func (r *pkRun) lineCut(t *Term, k int64) *pkLine {
	t = textOf(t)
	if t.op != "slice" || !isZeroI(t.args[1]) {
		return nil
	}
	src := t.args[0]
	if q := r.lineOf(src); q != nil && t.args[2] == sub(lenTerm(src), intTerm(k)) {
		return q
	}
	for _, q := range r.lines {
		if q.txt != nil && textOf(src) == q.txt && t.args[2] == sub(lenTerm(src), intTerm(k+1)) {
			return q
		}
	}
	return nil
}

// lineLen: the length of a line.
func (q *pkLine) lineLen() *Term {
	if q.val != nil {
		return lenTerm(q.val)
	}
	return sub(lenTerm(q.txt), intTerm(1))
}

// textOf strips conversions between strings and bytes.
func textOf(t *Term) *Term {
	for t != nil && len(t.args) == 1 && (t.op == "iface" || t.op == "conv" && t.typ != nil && (isString(t.typ) || isBytes(t.typ))) {
		t = t.args[0]
	}
	return t
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isInt(sl.Elem()) && intBits(sl.Elem()) == 8
}

// bytesConst: the constant bytes of t ("" if they are not constant).
func (r *pkRun) bytesConst(t *Term) string {
	u := textOf(t)
	if s, ok := u.strVal(); ok {
		return s
	}
	base, lo, hi := sliceBase(u)
	if base == nil || lo == nil || hi == nil {
		return ""
	}
	a, ok1 := lo.intVal()
	b, ok2 := hi.intVal()
	if !ok1 || !ok2 || b-a > 64 {
		return ""
	}
	out := make([]byte, b-a)
	set := make([]bool, b-a)
	for _, x := range r.e.effects {
		if x.kind != "store" || x.addr == nil || x.addr.op != "index" || x.addr.args[0] != base {
			continue
		}
		i, ok := x.addr.args[1].intVal()
		v := one(x.val)
		if !ok || v == nil || i < a || i >= b {
			return ""
		}
		k, ok := v.intVal()
		if !ok || set[i-a] {
			return ""
		}
		out[i-a], set[i-a] = byte(k), true
	}
	for _, s := range set {
		if !s {
			return ""
		}
	}
	return string(out)
}

// asserted: the types the rest of the module expects of decoded values.
func (r *pkRun) asserted() {
	r.types = map[string]bool{}
	for _, f := range r.p.moduleFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.TypeAssert); ok && !types.IsInterface(a.AssertedType) {
					r.types[a.AssertedType.String()] = true
				}
			}
		}
	}
}

// pkState: the machine after one opcode.
type pkState struct {
	r     *pkRun
	op    int64
	g     *Node
	lines []*pkLine
	size  *Term   // length of the stack
	push  []*Term // values on top of what is kept
	keep  *Term   // how much of the old stack is kept
	set   map[*Term]*Effect
	mark  *Term // the marks
	rw    *rewriter
	tops  int // how many of the top values were stated
	wrote map[*Effect]bool
	memoW bool
}

func (s *pkState) must(ok bool, format string, args ...interface{}) bool {
	return s.r.must(ok, s.r.L.pos, "opcode %q: "+format, append([]interface{}{rune(s.op)}, args...)...)
}

func (s *pkState) n() *Term { return lenTerm(s.r.stack.sym) }

// operands: which lines are read.
func (s *pkState) operands(n int) bool {
	for _, q := range s.r.lines {
		if unsat(and(s.g, loopFree(q, s.r))) {
			continue
		}
		ok, cx := entails(s.g, loopFree(q, s.r))
		if !s.must(ok, "an operand is not always read @@when %s", cut(litsStr(cx), 200)) {
			return false
		}
		s.lines = append(s.lines, q)
	}
	ok, _ := entails(s.g, s.r.first.guard)
	return s.must(ok, "the opcode is not read in every round") && s.must(len(s.lines) == n, "%d operand lines are read instead of %d", len(s.lines), n)
}

// loopFree: when the line q is read.
func loopFree(q *pkLine, r *pkRun) *Node {
	if q.x0 != nil {
		return q.x0.guard
	}
	if q.l != nil {
		return q.l.entry
	}
	return q.x.guard
}

// result: the stack and the marks after the round.
func (s *pkState) result() bool {
	r := s.r
	v := pick(s.g, r.stack.next)
	m := pick(s.g, r.marks.next)
	s.rw = resolver(s.g)
	if !s.must(v != nil, "the stack has different values") || !s.must(m != nil, "the marks have different values") {
		return false
	}
	s.mark = m
	size, ok := s.shape(v)
	if !s.must(ok, "the stack is %v", v) {
		return false
	}
	s.size, s.set, s.wrote = size, map[*Term]*Effect{}, map[*Effect]bool{}
	for _, x := range r.e.effects {
		if x.kind != "store" || x.addr == nil || x.addr.op != "index" || unsat(and(s.g, x.guard)) {
			continue
		}
		base, lo, _ := sliceBase(x.addr.args[0])
		if base != r.stack.sym && x.addr.args[0] != r.stack.sym {
			continue
		}
		i := x.addr.args[1]
		if lo != nil && base == r.stack.sym && x.addr.args[0] != r.stack.sym {
			i = add(lo, i)
		}
		s.set[i] = x
	}
	return true
}

func (s *pkState) shape(v *Term) (*Term, bool) {
	switch {
	case v == s.r.stack.sym:
		s.keep = s.n()
		return s.keep, true
	case v.op == "append":
		n, ok := s.shape(v.args[0])
		if !ok {
			return nil, false
		}
		for _, a := range v.args[1:] {
			s.push = append(s.push, a)
		}
		return add(n, intTerm(int64(len(v.args)-1))), true
	case v.op == "slice" && isZeroI(v.args[1]):
		n, ok := s.shape(v.args[0])
		if !ok {
			return nil, false
		}
		hi := v.args[2]
		if d, isC := sub(n, hi).intVal(); isC && d >= 0 && int(d) <= len(s.push) {
			s.push = s.push[:len(s.push)-int(d)]
			if d == 0 {
				return hi, true
			}
			return hi, true
		}
		if len(s.push) > 0 {
			return nil, false
		}
		s.keep = hi
		return hi, true
	}
	return nil, false
}

// at: the value in the stack after the round.
func (s *pkState) at(i *Term) *Term {
	if d, ok := sub(i, s.keep).intVal(); ok && d >= 0 && int(d) < len(s.push) {
		return s.rw.term(s.push[d])
	}
	if x := s.set[i]; x != nil {
		if v := pick(and(s.g, x.guard), x.val); v != nil {
			return v
		}
	}
	return nil
}

// expect: the stack shrinks by pop values (from the mark: nil) and gets one.
func (s *pkState) expect(low *Term, k int) bool {
	want := add(low, intTerm(int64(k)))
	s.tops = k
	return s.must(s.size == want, "the stack has %v values afterwards instead of %v", s.size, want)
}

func (s *pkState) top() *Term {
	t := s.at(sub(s.size, intTerm(1)))
	if t == nil {
		t = mkTerm("old", "", nil)
	}
	return t
}

// slot: t is value i of the stack before the round.
func (s *pkState) slot(t, i *Term) bool {
	t = unIface(t)
	for t.op == "as" && len(t.args) == 1 {
		t = unIface(t.args[0])
	}
	if t.op != "load" || t.args[0].op != "index" {
		return false
	}
	base, k := t.args[0].args[0], t.args[0].args[1]
	if base.op == "appendall" && emptyList(base.args[0]) && base.args[1].op == "slice" && base.args[1].args[0] == s.r.stack.sym {
		// of a copy that nothing is stored into
		for _, x := range s.r.e.effects {
			if x.kind == "store" && x.addr != nil && x.addr.op == "index" && x.addr.args[0] == base {
				return false
			}
		}
		base, k = base.args[1].args[0], add(base.args[1].args[1], k)
	}
	return base == s.r.stack.sym && k == i
}

func (s *pkState) below(k int64) *Term { return sub(s.n(), intTerm(k)) }

func (s *pkState) lastMark() (*Term, *Term) {
	m := s.r.marks.sym
	last := sub(lenTerm(m), intTerm(1))
	return loadTerm(indexAddr(m, last, types.Typ[types.Int])), last
}

func loadTerm(a *Term) *Term { return mkTerm("load", "", types.Typ[types.Int], a) }

func (s *pkState) samMarks() bool {
	return s.must(s.mark == s.r.marks.sym, "the marks change: %v", s.mark)
}

// popped: the last mark is taken away; its value.
func (s *pkState) popped() *Term {
	m := s.r.marks.sym
	v, last := s.lastMark()
	if !s.must(s.mark.op == "slice" && s.mark.args[0] == m && isZeroI(s.mark.args[1]) && s.mark.args[2] == last, "the last mark is not removed: %v", s.mark) {
		return nil
	}
	return v
}

// typed: the pushed value has a type the readers of the result know.
func (s *pkState) typed(t *Term, ok func(types.Type) bool) types.Type {
	if t.op != "iface" {
		s.must(false, "the value pushed is not known: %v", t)
		return nil
	}
	typ := t.obj.(*ifaceObj).typ
	if !s.must(ok(typ), "a %s is pushed", typ) || !s.must(s.r.types[typ.String()], "a %s is pushed, which nothing reads", typ) {
		return nil
	}
	return typ
}

func (r *pkRun) opMark(s *pkState) {
	s.expect(s.n(), 0)
	m := r.marks.sym
	s.must(s.mark.op == "append" && s.mark.args[0] == m && len(s.mark.args) == 2 && s.mark.args[1] == s.n(), "the mark is not the height of the stack: %v", s.mark)
}

// memoized: x stores into the memo.
func (r *pkRun) memoUpdates(g *Node) []*Effect {
	var out []*Effect
	for _, x := range r.e.effects {
		if x.kind == "mapupdate" && !unsat(and(g, x.guard)) {
			out = append(out, x)
		}
	}
	return out
}

func (r *pkRun) opPut(s *pkState) {
	s.expect(s.n(), 0)
	s.samMarks()
	us := r.memoUpdates(s.g)
	if !s.must(len(us) == 1, "%d values are put into the memo", len(us)) {
		return
	}
	x := us[0]
	s.wrote[x] = true
	ok, cx := entails(s.g, x.guard)
	s.must(ok, "the value is not always put into the memo @@when %s", cut(litsStr(cx), 200))
	v := pick(s.g, x.val)
	s.must(v != nil && s.slot(v, s.below(1)), "what is put into the memo is not the top of the stack: %v", v)
	k := pick(s.g, x.args[0])
	if s.must(k != nil && r.lineIn(k) == s.lines[0], "the memo's key is not the operand: %v", k) {
		r.keys['p'], r.memo['p'] = r.hole(k), x.addr
	}
}

// lineIn: the line a key is made of.
func (r *pkRun) lineIn(k *Term) *pkLine {
	if q := r.lineOf(k); q != nil {
		return q
	}
	if k.op == "res" && k.aux == "0" && isCall(k.args[0], "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint") {
		return r.lineOf(k.args[0].args[0])
	}
	return nil
}

// hole: the key with the line replaced by a placeholder.
func (r *pkRun) hole(k *Term) *Term {
	h := mkTerm("param", "line", types.Typ[types.String])
	if r.lineOf(k) != nil {
		return h
	}
	return newRewriter(func(t *Term) *Term {
		if r.lineOf(t) != nil {
			return h
		}
		return nil
	}).term(k)
}

func (r *pkRun) opGet(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	for t.op == "res" && len(t.args) == 1 {
		t = t.args[0]
	}
	if !s.must(t.op == "lookup" && len(t.args) >= 2, "what is pushed does not come from the memo: %v", t) {
		return
	}
	k := t.args[1]
	if s.must(r.lineIn(k) == s.lines[0], "the memo's key is not the operand: %v", k) {
		r.keys['g'], r.memo['g'] = r.hole(k), t.args[0]
	}
}

// memoKeys: PUT and GET use the same map and the same key.
func (r *pkRun) memoKeys() {
	if a, b := r.keys['p'], r.keys['g']; a != nil && b != nil {
		r.must(a == b, r.L.pos, "PUT and GET use different keys: %v and %v", a, b)
		r.must(r.memo['p'] == r.memo['g'], r.L.pos, "PUT and GET use different maps: %v and %v", r.memo['p'], r.memo['g'])
	}
}

func (r *pkRun) opGlobal(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	typ := s.typed(t, func(t types.Type) bool { return structOf(t) != nil })
	if typ == nil {
		return
	}
	sv, _ := t.obj.(*ifaceObj).val.(*StructVal)
	if sv == nil {
		s.must(false, "the global pushed is not known: %v", t)
		return
	}
	st := structOf(typ)
	k := 0
	for i := range sv.f {
		if !isString(st.Field(i).Type()) && !isBytes(st.Field(i).Type()) {
			continue
		}
		want := k
		switch st.Field(i).Name() {
		case "Module":
			want = 0
		case "Name":
			want = 1
		}
		k++
		v := pick(s.g, sv.f[i])
		s.must(want < 2 && v != nil && r.lineOf(v) == s.lines[want], "%s is not operand %d", st.Field(i).Name(), want+1)
	}
	s.must(k == 2, "the global has %d texts", k)
}

// number: the pushed value is the operand's number.
func (s *pkState) number(t *Term, names ...string) (*Term, bool) {
	v := pick(s.g, sc(unIface(t)))
	for v != nil && v.op == "conv" && len(v.args) == 1 {
		v = v.args[0]
	}
	if v == nil || v.op != "res" || v.aux != "0" || !isCall(v.args[0], names...) {
		return nil, s.must(false, "the value pushed is not the number of the operand: %v", t)
	}
	return v.args[0], true
}

func (s *pkState) wide(call *Term, float bool) bool {
	switch call.aux {
	case "strconv.ParseFloat":
		b, ok := call.args[1].intVal()
		return s.must(ok && b == 64, "the number is read with %v bits", call.args[1])
	case "strconv.ParseInt":
		a, ok1 := call.args[1].intVal()
		b, ok2 := call.args[2].intVal()
		return s.must(ok1 && ok2 && a == 10 && (b == 64 || b == 0), "the number is read with base %v and %v bits", call.args[1], call.args[2])
	}
	return true
}

func (r *pkRun) opInt(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	if s.typed(t, func(t types.Type) bool { return isInt(t) && intBits(t) == 64 && !isUnsigned(t) }) == nil {
		return
	}
	call, ok := s.number(t, "strconv.Atoi", "strconv.ParseInt")
	if !ok || !s.wide(call, false) {
		return
	}
	s.must(r.lineOf(call.args[0]) == s.lines[0], "the number is not the whole operand: %v", call.args[0])
}

func (r *pkRun) opLong(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	if s.typed(t, func(t types.Type) bool { return isInt(t) && intBits(t) == 64 && !isUnsigned(t) }) == nil {
		return
	}
	call, ok := s.number(t, "strconv.Atoi", "strconv.ParseInt")
	if !ok || !s.wide(call, false) {
		return
	}
	a := textOf(call.args[0])
	switch {
	case r.lineCut(a, 1) == s.lines[0]:
	case memCall(a, "strings.TrimSuffix", "bytes.TrimSuffix") && r.lineOf(a.args[0]) == s.lines[0] && r.bytesConst(a.args[1]) == "L":
	case memCall(a, "strings.TrimRight", "bytes.TrimRight") && r.lineOf(a.args[0]) == s.lines[0] && r.bytesConst(a.args[1]) == "L":
	default:
		s.must(false, "the number is not the operand without its L: %v", a)
	}
}

func (r *pkRun) opFloat(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	if s.typed(t, func(t types.Type) bool { return isFloat(t) && t.String() == "float64" }) == nil {
		return
	}
	call, ok := s.number(t, "strconv.ParseFloat")
	if !ok || !s.wide(call, true) {
		return
	}
	s.must(r.lineOf(call.args[0]) == s.lines[0], "the number is not the whole operand: %v", call.args[0])
}

// content: the list behind a pushed value.
func (s *pkState) content(t *Term) *Term {
	t = unIface(t)
	if t.op == "alloc" {
		var v *Term
		for _, x := range s.r.e.effects {
			if x.kind == "store" && x.addr == t && !unsat(and(s.g, x.guard)) {
				v = pick(s.g, x.val)
			}
		}
		return v
	}
	return t
}

// fresh: t is a new list of the values above the mark.
func (s *pkState) above(t, m *Term) {
	v := s.content(t)
	r := s.r
	src := func(a *Term) bool {
		return a.op == "slice" && a.args[0] == r.stack.sym && a.args[1] == m && a.args[2] == s.n()
	}
	if v == nil {
		s.must(false, "the values above the mark are not known: %v", t)
		return
	}
	if v.op == "appendall" && (emptyList(v.args[0]) || v.args[0].op == "nil") && src(v.args[1]) {
		s.must(true, "")
		return
	}
	if v.op == "make" && v.args[0] == sub(s.n(), m) {
		for _, x := range r.e.effects {
			if x.kind == "copy" && !unsat(and(s.g, x.guard)) && len(x.args) == 2 && one(x.args[0]) == v && one(x.args[1]) != nil && src(one(x.args[1])) {
				ok, _ := entails(s.g, x.guard)
				s.must(ok, "the values above the mark are not always copied")
				return
			}
		}
	}
	// one by one
	parts, sz, why := r.e.buildOf(v)
	if why == "" && len(parts) == 1 && parts[0].x != nil && len(parts[0].x.loops) == 2 {
		q := parts[0]
		l := q.x.loops[1]
		var el *Term
		if sz == nil && len(q.el) == 1 {
			el = q.el[0]
		} else if sz != nil && sz == sub(s.n(), m) && q.idx == l.iv {
			el = one(q.val)
		}
		trips := r.e.tripTerm(l, and(s.g, bd.T))
		if el != nil && trips == sub(s.n(), m) && s.slot(el, add(m, l.iv)) {
			ok, _ := entails(l.back, q.x.guard)
			s.must(ok, "not every value above the mark is kept")
			return
		}
	}
	if src(v) {
		s.must(false, "the values above the mark share the memory of the stack, which is overwritten later")
		return
	}
	s.must(false, "the value pushed is not a list of the values above the mark: %v", v)
}

func isSliceT(t types.Type) bool {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.IsInterface(sl.Elem())
}

func (r *pkRun) opTuple(s *pkState) {
	if m := s.popped(); m != nil && s.expect(m, 1) {
		t := s.top()
		if s.typed(t, isSliceT) != nil {
			s.above(t, m)
		}
	}
}

func (r *pkRun) opList(s *pkState) {
	if m := s.popped(); m != nil && s.expect(m, 1) {
		t := s.top()
		if s.typed(t, isSliceT) != nil {
			s.above(t, m)
		}
	}
}

func (r *pkRun) opAppend(s *pkState) {
	if !s.expect(s.below(2), 1) || !s.samMarks() {
		return
	}
	t := s.at(sub(s.size, intTerm(1)))
	// the list stays where it is, and gets the value
	if t != nil && !s.must(s.slot(t, s.below(2)), "the list is replaced: %v", t) {
		return
	}
	n := 0
	for _, x := range r.e.effects {
		if x.kind != "store" || x.addr == nil || unsat(and(s.g, x.guard)) {
			continue
		}
		a := pick(s.g, sc(x.addr))
		if a == nil || a.op != "as" || !s.slot(a, s.below(2)) {
			continue
		}
		n++
		s.wrote[x] = true
		ok, cx := entails(s.g, x.guard)
		s.must(ok, "the value is not always appended @@when %s", cut(litsStr(cx), 200))
		v := pick(s.g, x.val)
		s.must(v != nil && v.op == "append" && len(v.args) == 2 && v.args[0].op == "load" && v.args[0].args[0] == a && s.slot(v.args[1], s.below(1)), "the top of the stack is not appended to the list: %v", v)
	}
	s.must(n == 1, "the list below the value is extended %d times in place (values taken from the memo have to see it)", n)
}

func (r *pkRun) opUnicode(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	if s.typed(t, func(t types.Type) bool { return isString(t) || isBytes(t) }) == nil {
		return
	}
	r.unescaped(s, textOf(t))
}

var escapes = map[string]string{"\\u0000": "\x00", "\\u000a": "\n", "\\u000d": "\r", "\\u001a": "\x1a", "\\u005c": "\\"}

func (r *pkRun) unescaped(s *pkState, t *Term) {
	seen := map[string]bool{}
	last := "" // outermost replacement
	pair := func(from, to string) bool {
		want, ok := escapes[from]
		if !s.must(ok, "%q is replaced in strings", from) {
			return false
		}
		seen[from] = true
		return s.must(to == want, "%q is replaced by %q", from, to)
	}
	for {
		t = textOf(t)
		if r.lineOf(t) == s.lines[0] && r.lineOf(t) != nil {
			break
		}
		if l, ph := r.e.phiBySym(t); ph != nil {
			in := pick(l.entry, ph.init)
			if in == nil {
				in = pick(s.g, ph.init)
			}
			ps, why := r.replaceLoop(s, l, ph)
			if !s.must(why == "" && in != nil, "the escapes of strings are not known: %s", why) {
				return
			}
			for i := len(ps) - 1; i >= 0; i-- {
				if !pair(ps[i][0], ps[i][1]) {
					return
				}
				s.must(ps[i][0] != "\\u005c" || last == "", "backslashes are unescaped before %q is", last)
				last = ps[i][0]
			}
			t = in
			continue
		}
		switch {
		case memCall(t, "bytes.Replace", "strings.Replace", "bytes.ReplaceAll", "strings.ReplaceAll"):
			from, to := r.bytesConst(t.args[1]), r.bytesConst(t.args[2])
			if len(t.args) == 4 {
				n, ok := t.args[3].intVal()
				s.must(ok && n < 0, "not all of %q are replaced", from)
			}
			if !pair(from, to) {
				return
			}
			s.must(from != "\\u005c" || last == "", "backslashes are unescaped before %q is", last)
			last = from
			t = t.args[0]
		case isCall(t, "(*strings.Replacer).Replace") && isCall(t.args[0], "strings.NewReplacer"):
			var list []string
			for _, x := range r.e.effects {
				if calls(x) && x.name == "strings.NewReplacer" && (one(x.res) == t.args[0]) {
					vs, ok := r.e.variadic(x, x.args[len(x.args)-1])
					if !ok {
						continue
					}
					for _, v := range vs {
						k, ok := one(v).strVal()
						if !ok {
							s.must(false, "the replacements are not constant")
							return
						}
						list = append(list, k)
					}
				}
			}
			for i := 0; i+1 < len(list); i += 2 {
				if !pair(list[i], list[i+1]) {
					return
				}
			}
			last = "other escapes"
			t = t.args[1]
		default:
			s.must(false, "the string pushed is not the unescaped operand: %v", t)
			return
		}
	}
	for from := range escapes {
		s.must(seen[from], "%q is not unescaped", from)
	}
}

// replaceLoop: a loop over a table of constants that replaces one after the
// other.
func (r *pkRun) replaceLoop(s *pkState, l *LoopInst, ph *PhiInfo) (ps [][2]string, why string) {
	t := textOf(pick(l.back, ph.next))
	if t == nil || !memCall(t, "bytes.Replace", "strings.Replace", "bytes.ReplaceAll", "strings.ReplaceAll") || textOf(t.args[0]) != ph.sym {
		return nil, "not a replacement"
	}
	if len(t.args) == 4 {
		if n, ok := t.args[3].intVal(); !ok || n >= 0 {
			return nil, "not all are replaced"
		}
	}
	trips := r.e.tripTerm(l, s.g)
	if trips == nil {
		return nil, "the number of rounds is not known"
	}
	n, ok := r.constLen(trips)
	if !ok || n > 64 {
		return nil, "the number of rounds is not constant"
	}
	for k := int64(0); k < n; k++ {
		a, ok1 := r.constText(t.args[1], l.iv, k)
		b, ok2 := r.constText(t.args[2], l.iv, k)
		if !ok1 || !ok2 {
			return nil, "the table is not constant"
		}
		ps = append(ps, [2]string{a, b})
	}
	return ps, ""
}

func (r *pkRun) constLen(t *Term) (int64, bool) {
	if n, ok := t.intVal(); ok {
		return n, true
	}
	if t.op == "len" && t.args[0].op == "load" && t.args[0].args[0].op == "global" {
		if tab := r.p.constTable(t.args[0].args[0].aux); tab != nil {
			return tab.n, true
		}
	}
	return 0, false
}

// constText: the constant t stands for in round k.
func (r *pkRun) constText(t, iv *Term, k int64) (string, bool) {
	t = textOf(newRewriter(func(u *Term) *Term {
		if u == iv {
			return intTerm(k)
		}
		return nil
	}).term(t))
	if s, ok := t.strVal(); ok {
		return s, true
	}
	if t.op != "load" {

		return "", false
	}
	a, path := t.args[0], ""

	for {
		switch a.op {
		case "field":
			path = "." + a.aux + path
			a = a.args[0]
			continue
		case "index":
			if i, ok := a.args[1].intVal(); ok {
				path = fmt.Sprintf("[%d]", i) + path
				a = a.args[0]
				continue
			}
		case "load":
			a = a.args[0]
			continue
		case "global":
			if tab := r.p.constTable(a.aux); tab != nil {
				s, ok := tab.vals[path]
				return s, ok
			}
		}
		break
	}
	// a local table
	v, ok := "", false
	at := t.args[0]
	for _, x := range r.e.effects {
		val := x.val
		if x.kind == "store" && at.op == "field" && x.addr == at.args[0] {
			// a row of the table
			sv, is := val.(*StructVal)
			if !is {
				return "", false
			}
			for i := range sv.f {
				if structOf(sv.typ).Field(i).Name() == at.aux {
					val = sv.f[i]
				}
			}
		} else if x.kind != "store" || x.addr != at {
			if x.kind == "store" && x.addr.op == "index" && at.op != "index" && x.addr.args[0] == rootOf(at) {
				if _, isC := x.addr.args[1].intVal(); !isC {
					return "", false
				}
			}
			continue
		}
		{
			if w := one(val); w != nil && !ok {
				v, ok = w.strVal()
				if !ok {
					return "", false
				}
			} else {
				return "", false
			}
		}
	}
	return v, ok
}

// ctable: a package variable that is only set by its initialiser.
type ctable struct {
	n    int64
	vals map[string]string
}

// constTable: texts of the table, by path.
func (p *Program) constTable(name string) (out *ctable) {
	var g *ssa.Global
	for _, f := range p.moduleFns() {
		for _, m := range f.Pkg.Members {
			if v, ok := m.(*ssa.Global); ok && v.String() == name {
				g = v
			}
		}
		if g != nil {
			break
		}
	}
	if g == nil {
		return nil
	}
	t := &ctable{vals: map[string]string{}}
	var base ssa.Value = g
	init := g.Pkg.Func("init")
	// nothing but the initialiser writes
	for _, f := range append(p.moduleFns(), init) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if st.Addr == g {
					if f != init || base != g {
						return nil
					}
					sl, ok := st.Val.(*ssa.Slice)
					if !ok {
						return nil
					}
					base = sl.X
				} else if root, _, ok := addrPath(st.Addr); ok && root == g && f != init {
					return nil
				}
			}
		}
	}
	switch q := base.Type().Underlying().(type) {
	case *types.Pointer:
		if a := arrayOf(q.Elem()); a != nil {
			t.n = a.Len()
		}
	}
	var collect func(base ssa.Value, at string)
	collect = func(base ssa.Value, at string) {
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				root, path, ok := addrPath(st.Addr)
				if !ok || root != base || st.Addr == base && at == "" {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Const:
					if v.Value != nil && v.Value.Kind() == constant.String {
						t.vals[at+path] = constant.StringVal(v.Value)
					}
				case *ssa.UnOp:
					if a, ok := v.X.(*ssa.Alloc); ok && a != base {
						collect(a, at+path)
					}
				}
			}
		}
	}
	collect(base, "")
	return t
}

// addrPath: the variable an address lies in, and where.
func addrPath(v ssa.Value) (ssa.Value, string, bool) {
	path := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := structOf(x.X.Type().Underlying().(*types.Pointer).Elem())
			path = "." + st.Field(x.Field).Name() + path
			v = x.X
		case *ssa.IndexAddr:
			c, ok := x.Index.(*ssa.Const)
			if ok {
				path = fmt.Sprintf("[%d]", c.Int64()) + path
			} else {
				path = "[?]" + path
			}
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return v, path, true
		}
	}
}

// memCall: isCall for functions that read memory through their arguments.
func memCall(t *Term, names ...string) bool {
	if t == nil || t.op != "call" && t.op != "ext" {
		return false
	}
	for _, n := range names {
		if t.aux == n || hasPfx(t.aux, n+",") {
			return true
		}
	}
	return false
}

// structTerm: the struct behind a pushed value, with what was stored into it.
func (s *pkState) fields(t *Term) map[string]*Term {
	out := map[string]*Term{}
	if t.op == "iface" {
		io := t.obj.(*ifaceObj)
		if sv, ok := io.val.(*StructVal); ok {
			for i, v := range sv.f {
				out[structOf(sv.typ).Field(i).Name()] = pick(s.g, v)
			}
			return out
		}
		t = unIface(t)
	}
	if t.op == "alloc" {
		for _, x := range s.r.e.effects {
			if x.kind != "store" || x.addr == nil || unsat(and(s.g, x.guard)) {
				continue
			}
			if x.addr == t {
				if sv, ok := x.val.(*StructVal); ok {
					for i, v := range sv.f {
						out[structOf(sv.typ).Field(i).Name()] = pick(s.g, v)
					}
				}
			}
			if x.addr.op == "field" && x.addr.args[0] == t {
				if ok, _ := entails(s.g, x.guard); !ok {
					out[x.addr.aux] = nil
					continue
				}
				out[x.addr.aux] = pick(s.g, x.val)
			}
		}
	}
	return out
}

func (s *pkState) two(t *Term, a, b string) {
	fs := s.fields(t)
	x, y := fs[a], fs[b]
	if x == nil || y == nil {
		s.must(false, "the fields %s and %s of the value pushed are not known", a, b)
		return
	}
	s.must(s.slot(x, s.below(2)), "%s is not the value below the top of the stack: %v", a, x)
	s.must(s.slot(y, s.below(1)), "%s is not the top of the stack: %v", b, y)
}

func isStructT(t types.Type) bool {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	return structOf(t) != nil
}

func (r *pkRun) opReduce(s *pkState) {
	if s.expect(s.below(2), 1) && s.samMarks() {
		t := s.top()
		if s.typed(t, isStructT) != nil {
			s.two(t, "Callable", "Args")
		}
	}
}

func (r *pkRun) opBuild(s *pkState) {
	if !s.expect(s.below(2), 1) || !s.samMarks() {
		return
	}
	t := s.top()
	if s.typed(t, isStructT) == nil {
		return
	}
	s.two(t, "Object", "Args")
	// the object in the memo gets the state too
	n, done := 0, bd.F
	for _, x := range r.e.effects {
		if x.kind != "store" || x.addr == nil || x.addr.op != "field" || unsat(and(s.g, x.guard)) || !s.slot(x.addr.args[0], s.below(2)) {
			continue
		}
		n++
		done = or(done, x.guard)
		v := pick(and(s.g, x.guard), x.val)
		if !s.must(v != nil, "the state of the object is not known") {
			continue
		}
		if s.slot(v, s.below(1)) {
			continue
		}
		fs := s.fields(v)
		s.must(fs["Args"] != nil && s.slot(fs["Args"], s.below(1)), "the state of the object is not the top of the stack: %v", v)
	}
	if !s.must(n > 0, "the object in the memo does not get its state (values taken from the memo have to see it)") {
		return
	}
	// for every object that has none
	left := and(s.g, not(done))
	for _, a := range support(left) {
		if a.op == "is" || a.op == "isnil" {
			left = and(left, bd.atom(a))
		}
	}
	_, cx := entails(left, bd.F)
	s.must(unsat(left), "the object in the memo does not get its state @@when %s", cut(litsStr(cx), 200))
}

func (r *pkRun) opNone(s *pkState) {
	s.expect(s.n(), 1)
	s.samMarks()
	t := s.top()
	ok := t.op == "iface" || t.op == "nil"
	if t.op == "iface" {
		st := structOf(t.obj.(*ifaceObj).typ)
		ok = st != nil && st.NumFields() == 0 || one(t.obj.(*ifaceObj).val) != nil && one(t.obj.(*ifaceObj).val).op == "nil"
	}
	s.must(ok, "None is not pushed as a constant: %v", t)
}

// key: t is the text of slot i.
func (s *pkState) key(v Val, i *Term) bool {
	t := pick(s.g, v)
	if t == nil {
		return false
	}
	t = textOf(t)
	return s.slot(t, i)
}

func (r *pkRun) opDict(s *pkState) {
	m := s.popped()
	if m == nil || !s.expect(m, 1) {
		return
	}
	t := s.top()
	if s.typed(t, func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }) == nil {
		return
	}
	d := unIface(t)
	if !s.must(d.op == "makemap", "the dict pushed is not a new one: %v", d) {
		return
	}
	var us []*Effect
	for _, x := range r.memoUpdatesIn(s) {
		if x.addr == d {
			us = append(us, x)
			s.wrote[x] = true
		}
	}
	if !s.must(len(us) == 1 && len(us[0].loops) == 2, "the pairs of the dict are not stored in one loop (%d)", len(us)) {
		return
	}
	x := us[0]
	l := x.loops[1]
	lo := add(m, mul(intTerm(2), l.iv))
	in := and(l.back, s.sel())
	ok, cx := entails(l.back, x.guard)
	s.must(ok, "a pair is left out @@when %s", cut(litsStr(cx), 200))
	g := s.g
	s.g = and(in, x.guard)
	v := pick(s.g, x.val)
	s.must(v != nil && s.slot(v, add(lo, intTerm(1))), "the value of a pair is not its second part: %v", v)
	s.must(s.key(x.args[0], lo), "the key of a pair is not its first part: %s", vstr(x.args[0]))
	s.g = g
	// all pairs
	n := sub(s.n(), m)
	i2 := mul(intTerm(2), l.iv)
	even := eq0(polyOf(remTerm(n, intTerm(2), types.Typ[types.Int])))
	half := divTerm(n, intTerm(2), types.Typ[types.Int])
	facts := or(not(even), eq0(polyOf(sub(n, mul(intTerm(2), half)))))
	facts = and(facts, or(even, eq0(polyOf(sub(remTerm(n, intTerm(2), types.Typ[types.Int]), intTerm(1))))))
	// left with 2*iv >= n or iv >= n/2
	ok, cx = entails(and(s.g, facts), or(le0(polyOf(sub(n, i2))), le0(polyOf(sub(half, l.iv)))))
	s.must(ok, "not all pairs are stored @@when %s", cut(litsStr(cx), 200))
	ok, cx = entails(l.back, or(le0(polyOf(add(sub(i2, n), intTerm(1)))), le0(polyOf(add(sub(l.iv, half), intTerm(1))))))
	s.must(ok, "pairs beyond the stack are read @@when %s", cut(litsStr(cx), 200))
	// values above the mark: not fewer than none
	odd := eq0(polyOf(sub(remTerm(n, intTerm(2), types.Typ[types.Int]), intTerm(1))))
	ok, cx = entails(and(s.g, or(even, odd)), even)
	s.must(ok, "a dict with a key without value is accepted @@when %s", cut(litsStr(cx), 200))
}

func (s *pkState) sel() *Node { return s.r.sel(s.op) }

// memoUpdatesIn: stores into maps that can happen in the round (also in inner
// loops, whose guards are in terms of their own rounds).
func (r *pkRun) memoUpdatesIn(s *pkState) []*Effect {
	var out []*Effect
	for _, x := range r.e.effects {
		if (x.kind == "mapupdate" || x.kind == "mapdelete") && inLoop(x, r.L) && !unsat(and(s.sel(), x.guard)) {
			out = append(out, x)
		}
	}
	return out
}

func (r *pkRun) opSetitem(s *pkState) {
	if !s.expect(s.below(2), 0) || !s.samMarks() {
		return
	}
	us := r.memoUpdates(s.g)
	if !s.must(len(us) == 1 && len(us[0].loops) == 1, "%d values are stored into a dict", len(us)) {
		return
	}
	x := us[0]
	s.wrote[x] = true
	ok, cx := entails(s.g, x.guard)
	s.must(ok, "the value is not always stored @@when %s", cut(litsStr(cx), 200))
	a := pick(s.g, sc(x.addr))
	s.must(a != nil && s.slot(a, s.below(3)), "the dict is not the third value of the stack: %v", a)
	v := pick(s.g, x.val)
	s.must(v != nil && s.slot(v, s.below(1)), "the value is not the top of the stack: %v", v)
	s.must(s.key(x.args[0], s.below(2)), "the key is not the value below the top of the stack: %s", vstr(x.args[0]))
}

func (r *pkRun) opPop(s *pkState) { s.expect(s.below(1), 0); s.samMarks() }
func (r *pkRun) opPopMark(s *pkState) {
	if m := s.popped(); m != nil {
		s.expect(m, 0)
	}
}
func (r *pkRun) opDup(s *pkState) {
	if s.expect(s.n(), 1) && s.samMarks() {
		s.must(s.slot(s.top(), s.below(1)), "the value pushed is not the top of the stack: %v", s.top())
	}
}

// frame: nothing else changes.
func (s *pkState) frame() {
	if s.size == nil {
		return
	}
	for i, x := range s.set {
		if s.tops > 0 && i == sub(s.size, intTerm(1)) {
			continue
		}
		// above the new top: dead
		if ok, _ := entails(s.g, le0(polyOf(sub(s.size, i)))); ok {
			continue
		}
		s.r.must(false, x.pos, "opcode %q: value %v of the stack is overwritten", rune(s.op), i)
	}
	s.must(s.keep != nil, "nothing of the stack is kept")
	low := sub(s.size, intTerm(int64(s.tops)))
	ok, _ := entails(s.g, le0(polyOf(sub(low, s.keep))))
	if low != s.keep && !ok {
		s.must(false, "values below are replaced")
	}
	for _, x := range s.r.memoUpdatesIn(s) {
		if !s.wrote[x] {
			s.r.must(false, x.pos, "opcode %q: a value is stored into %v", rune(s.op), x.addr)
		}
	}
}

// refused: a valid program is not refused.
func (s *pkState) refused() {
	r := s.r
	for _, q := range r.rets {
		g := and(q.g, s.sel())
		if unsat(g) {
			continue
		}
		good := bd.T
		for _, a := range support(g) {
			good = and(good, r.valid(s, a))
		}
		ok := unsat(and(g, good))
		if !ok {
			_, cx := entails(and(g, good), bd.F)
			r.must(false, q.pos, "opcode %q is refused @@when %s", rune(s.op), cut(litsStr(cx), 300))
		}
	}
}

// valid: what can be assumed of valid programs.
func (r *pkRun) valid(s *pkState, a *Term) *Node {
	n := bd.atom(a)
	if s.op == 'L' && len(s.lines) == 1 {
		// a long ends with L
		ends := func(t *Term, name string) bool {
			return memCall(t, "strings."+name, "bytes."+name) && r.lineOf(t.args[0]) == s.lines[0] && r.bytesConst(t.args[1]) == "L"
		}
		if ends(a, "HasSuffix") {
			return n
		}
		if t := findSub(a, func(u *Term) bool { return ends(u, "TrimSuffix") }); t != nil && (a.op == "eq0" || a.op == "le0") {
			l := s.lines[0].lineLen()
			return and(le0(polyOf(sub(intTerm(2), l))), eq0(polyOf(sub(lenTerm(t), sub(l, intTerm(1))))))
		}
	}
	switch a.op {
	case "isnil":
		if findSub(a, func(t *Term) bool { return t.op == "res" }) != nil {
			return n
		}
		for _, q := range r.lines {
			if q.x0 == nil {
				continue
			}
			for _, ph := range errPhis(q.l) {
				if a.args[0] == ph.sym {
					return n
				}
			}
		}
	case "is", "ok", "has":
		return n
	case "eq0":
		t := a.args[0]
		var reads []*pkLine
		for _, q := range r.lines {
			reads = append(reads, q, &pkLine{x: q.x0})
		}
		for _, q := range append(reads, &pkLine{x: r.first}) {
			if q.x == nil {
				continue
			}
			if k := resAt(q.x, 0); k != nil && t == sub(k, intTerm(1)) && (hasSuffix(q.x.name, ".Read") || q.x.name == "io.ReadFull") {
				return n
			}
		}
		// a long ends with L
		if s.op == 'L' && findSub(t, func(u *Term) bool {
			if u.op != "load" || u.args[0].op != "index" || len(s.lines) != 1 {
				return false
			}
			b := u.args[0].args[0]
			return (r.lineOf(b) == s.lines[0] || textOf(b) == s.lines[0].txt) && u.args[0].args[1] == sub(s.lines[0].lineLen(), intTerm(1))
		}) != nil && polyHas(t, -'L') {
			return n
		}
		if s.op == 'd' {
			if v, _ := r.marksTop(); findSub(t, func(u *Term) bool { return u.op == "rem" && u.args[0] == sub(s.n(), v) }) != nil {
				return eq0(polyOf(remTerm(sub(s.n(), v), intTerm(2), types.Typ[types.Int])))
			}
		}
	case "le0":
		t := a.args[0]
		if s.op == 'L' && len(s.lines) == 1 {
			// at least one digit and L
			l := s.lines[0].lineLen()
			return le0(polyOf(sub(intTerm(2), l)))
		}
		_ = t
	}
	// the stack holds what the opcode needs
	need := map[int64]int64{'a': 2, 'R': 2, 'b': 2, 's': 3, 'p': 1, '.': 1, '2': 1, '0': 1}[s.op]
	return le0(polyOf(sub(intTerm(need), s.n())))
}

func polyHas(t *Term, c int64) bool {
	for _, m := range polyOf(t) {
		if len(m.fs) == 0 {
			return m.c == c
		}
	}
	return false
}

func (r *pkRun) marksTop() (*Term, *Term) {
	s := &pkState{r: r}
	return s.lastMark()
}

// noSuccess: the program does not end without an error.
func (r *pkRun) noSuccess(g *Node) bool {
	for _, q := range r.rets {
		if v := lastVal(q.val); v != nil && !unsat(and(q.g, and(g, errIsNil(v)))) {
			return false
		}
	}
	return true
}

// stop: the result is the top of the stack.
func (r *pkRun) stop() {
	has := false
	for _, k := range r.codes {
		has = has || k == '.'
	}
	if !r.must(has && unsat(and(r.L.back, r.sel('.'))), r.L.pos, "opcode '.' does not end the program") {
		return
	}
	s := &pkState{r: r, op: '.', g: r.sel('.')}
	n := 0
	for _, q := range r.rets {
		tv, ok := q.val.(*TupleVal)
		if !ok || len(tv.v) != 2 {
			continue
		}
		g := and(q.g, and(r.sel('.'), errIsNil(tv.v[1])))
		if unsat(g) {
			continue
		}
		n++
		v := pick(g, tv.v[0])
		r.must(v != nil && s.slot(v, s.below(1)), q.pos, "the result is not the top of the stack: %v", v)
	}
	r.must(n > 0, r.L.pos, "opcode '.' does not return a result")
	s.refused2()
	for _, q := range r.lines {
		r.must(unsat(and(r.sel('.'), q.x.guard)), q.x.pos, "opcode '.' reads an operand")
	}
}

// refused2: STOP is not refused.
func (s *pkState) refused2() {
	r := s.r
	for _, q := range r.rets {
		v := lastVal(q.val)
		if v == nil {
			continue
		}
		g := and(and(q.g, s.sel()), not(errIsNil(v)))
		if unsat(g) {
			continue
		}
		good := bd.T
		for _, a := range support(g) {
			good = and(good, r.valid(s, a))
		}
		if !unsat(and(g, good)) {
			r.must(false, q.pos, "opcode %q is refused", rune(s.op))
		}
	}
}

// unknown: any other byte is an error.
func (r *pkRun) unknown() {
	g := r.sel(-1)
	_, cx := entails(and(r.L.back, g), bd.F)
	r.must(unsat(and(r.L.back, g)), r.L.pos, "an unknown opcode is skipped @@when %s", cut(litsStr(cx), 300))
	r.must(r.noSuccess(g), r.L.pos, "an unknown opcode ends the program without an error")
}

func init() {
	reg("C19", func(p *Program, c *Ctx) { rulePickle(p, c) }, symText+"Rule: one round of the decoder's loop is evaluated on an arbitrary stack, mark stack and memo; for every supported opcode the operand lines read, the stack and mark stack carried to the next round, the memo and the value returned are compared, under the guard of that opcode, with what protocol 0 defines (values, order of operands, depth of the pops, fresh objects for tuples, lists and dictionaries, one memo key per operand, all escapes of unicode strings undone with the backslash last); no other guard may lead to the next round or to a result; values outside of the opcode's domain are refused, values inside are not; lists and objects are shared through the memo.", asmInts, asmAlias, "strconv, strings and bufio behave as documented")
}

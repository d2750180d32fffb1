package main

// C03: the parallel path processes the same rows as the serial one, each
// exactly once, without sharing memory between workers, and waits for all of
// them, whatever the number of threads and the schedule.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func ruleParallel(p *Program, c *Ctx) {
	par := 0
	p.predRuns(c, "tiles", func(r *ERun) {
		if r.noLeaves(p) || r.entry == "PredictSingle" || r.entry == "Predict" {
			for _, x := range r.effs {
				c.must(x.kind != "go" || r.noLeaves(p), "no-go", r.fn, x.pos, "%s starts a goroutine", r.entry)
			}
			return
		}
		if r.loadErr != "" {
			c.violate("tiles", r.fn, r.fn.Pos(), "the rows the workers process cannot be determined @@%s", r.loadErr)
			return
		}
		for _, x := range r.effs {
			if x.kind == "go" {
				par++
				c.worker(p, r, x)
			}
		}
	})
	if par == 0 {
		c.notes = append(c.notes, "no goroutine is started by any prediction entry point; the rules hold vacuously")
	}
	// variables shared with a goroutine
	for _, f := range p.everyFunc() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					c.captured(p, f, g)
				}
			}
		}
	}
}

func (x *Effect) under(ge *Effect) bool {
	return x.gor == int(ge.pos)
}

func (c *Ctx) worker(p *Program, r *ERun, ge *Effect) {
	e := r.e
	gor := int(ge.pos)
	var mine []*Effect
	for _, x := range r.effs {
		if x.gor == gor {
			mine = append(mine, x)
		}
	}
	var rows []*Row
	for _, g := range r.rows {
		if g.gor == gor {
			rows = append(rows, g)
		}
	}
	feeder := len(rows) == 0 // a goroutine that only distributes work
	if feeder {
		for _, x := range mine {
			c.must(x.kind != "store" || !r.isResult(x), "worker-writes", x.in, x.pos, "a goroutine writes results outside the processing of rows")
		}
	}
	// 1. memory: own allocations, or the result inside its rows
	for _, x := range mine {
		switch x.kind {
		case "store", "mapupdate", "copy", "clear":
			a := x.addr
			if x.kind != "store" && x.kind != "mapupdate" && len(x.args) > 0 {
				a = one(x.args[0])
			}
			if a == nil {
				c.violate("worker-writes", x.in, x.pos, "a worker writes memory that cannot be identified")
				continue
			}
			root := rootOf(a)
			if r.isResult(x) {
				c.must(r.groupOf(x) != nil, "worker-writes", x.in, x.pos, "a worker writes results outside the processing of a row")
				continue
			}
			c.must(e.gorOwns(root, ge), "worker-writes", x.in, x.pos, "a worker writes memory it shares with others @@%v", a)
		case "call", "invoke":
			if x.pure || x.fn == nil || (x.fn != nil && p.treeFn(x.fn)) {
				continue
			}
			if p.isTransform(x.fn) {
				continue
			}
			if isWG(x.name) {
				continue
			}
			for i, a := range x.args {
				t := one(a)
				if t == nil {
					continue
				}
				if i < len(x.fn.Params) && pointerish(x.fn.Params[i].Type()) && p.effects().writesArg(x.fn, i) {
					if _, isMod := p.effects().sum[x.fn]; isMod {
						c.must(e.gorOwns(rootOf(t), ge), "worker-writes", x.in, x.pos, "a worker hands shared memory to %s, which writes it", x.name)
					}
				}
			}
		}
	}
	// 2. completion: Add before the start, Done on every way out, Wait before
	// success
	if feeder && onlyFeeds(mine) {
		// the workers end after its last action, closing the channel
		return
	}
	c.waits(p, r, ge, mine)
	if feeder {
		return
	}
	// 3. tiling
	var reads []*Effect
	for _, g := range rows {
		reads = append(reads, g.reads...)
	}
	if len(reads) == 0 {
		return
	}
	groups := map[string]bool{}
	for _, g := range rows {
		k := fmt.Sprint(g.loop != nil, " ", g.r)
		if groups[k] {
			continue
		}
		groups[k] = true
	}
	if !c.must(len(rows) == 1, "tiles", ge.in, ge.pos, "a worker processes rows at %d places, one expected", len(rows)) {
		return
	}
	ok, why := r.tiles(rows[0], ge)
	c.must(ok, "tiles", reads[0].in, reads[0].pos, "the workers do not process every row exactly once @@%s", why)
}

// onlyFeeds: the goroutine sends values and then closes the channel, nothing
// else.
func onlyFeeds(mine []*Effect) bool {
	closes := 0
	for _, x := range mine {
		switch x.kind {
		case "send":
			if closes > 0 {
				return false
			}
		case "close":
			if len(x.loops) != 0 {
				return false
			}
			closes++
		case "index", "slice", "load", "defer", "return":
		case "call", "invoke":
			if !x.pure {
				return false
			}
		default:
			return false
		}
	}
	return closes == 1
}

func isWG(n string) bool {
	return n == "(*sync.WaitGroup).Add" || n == "(*sync.WaitGroup).Done" || n == "(*sync.WaitGroup).Wait"
}

// ownedBy: the object was allocated inside the goroutine.
func (e *Engine) gorOwns(root *Term, ge *Effect) bool {
	if root.op != "alloc" && root.op != "make" && root.op != "makemap" {
		return false
	}
	return e.rootGor[root] == int(ge.pos)
}

// waits: WaitGroup protocol.
func (c *Ctx) waits(p *Program, r *ERun, ge *Effect, mine []*Effect) {
	e := r.e
	var wg *Term
	var done []*Effect
	for _, x := range mine {
		if x.name == "(*sync.WaitGroup).Done" && x.kind == "call" {
			done = append(done, x)
			if t := one(x.args[0]); t != nil {
				wg = t
			}
		}
		c.must(x.name != "(*sync.WaitGroup).Add" || x.kind != "call", "wait-group", x.in, x.pos, "Add runs inside the goroutine it counts")
		c.must(x.name != "(*sync.WaitGroup).Wait" || x.kind != "call", "wait-group", x.in, x.pos, "a worker waits for the workers")
	}
	if wg == nil {
		// alternative: results joined over a channel are not recognised
		c.violate("wait-group", ge.in, ge.pos, "nothing tells when the goroutine has finished its work")
		return
	}
	gl := ge.loops
	ok, why := false, "Done is not called on every way out of the goroutine"
	for _, d := range done {
		if len(d.loops) == len(gl) {
			if g, cx := entails(ge.guard, e.dropInside(gl, d.guard)); g {
				ok = true
			} else {
				why = "Done is skipped when " + litsStr(cx)
			}
		}
	}
	c.must(ok && len(done) == 1, "wait-group", ge.in, ge.pos, "Done does not run exactly once per goroutine @@%s (%d calls)", why, len(done))
	if len(done) == 1 && ok {
		// everything the goroutine does to memory precedes Done
		for _, x := range mine {
			if (x.kind == "store" || x.kind == "call" && x.fn != nil && p.isTransform(x.fn)) && x.seq > done[0].seq {
				if x.kind == "store" && !r.isResult(x) {
					continue
				}
				c.must(false, "wait-group", x.in, x.pos, "a result is written after Done")
			}
		}
	}
	adds, waits := 0, 0
	var wait *Effect
	for _, x := range r.effs {
		if x.gor != 0 || x.kind != "call" && x.kind != "defer" || len(x.args) == 0 || one(x.args[0]) != wg {
			continue
		}
		switch x.name {
		case "(*sync.WaitGroup).Add":
			adds++
			okAdd := false
			if k, isC := one(x.args[1]).intVal(); isC && k == 1 && sameLoops(x.loops, gl) {
				okAdd = x.guard == ge.guard
			} else if len(x.loops) < len(gl) {
				// one Add for all goroutines
				if len(gl) == len(x.loops)+1 {
					okAdd, _ = e.isTrip(gl[len(gl)-1], x.args[1], r.assume)
					if ok, _ := entails(gl[len(gl)-1].entry, x.guard); !ok {
						okAdd = false
					}
				}
			}
			c.must(okAdd, "wait-group", x.in, x.pos, "Add does not count the goroutines that are started")
			c.must(x.seq < ge.seq, "wait-group", x.in, x.pos, "Add runs after the goroutine is started")
		case "(*sync.WaitGroup).Wait":
			if x.kind == "call" {
				waits++
				wait = x
			}
		}
	}
	c.must(adds == 1, "wait-group", ge.in, ge.pos, "%d Add calls for one kind of goroutine", adds)
	if !c.must(waits >= 1 && wait != nil, "wait-group", ge.in, ge.pos, "nothing waits for the goroutine") {
		return
	}
	c.must(len(wait.loops) == 0 && wait.seq > ge.seq, "wait-group", wait.in, wait.pos, "Wait does not follow the start of all goroutines")
	// whenever goroutines were started, every way out passes Wait
	start := e.preLoop(topGuard(ge.guard, ge.loops, nil))
	wg0 := e.preLoop(wait.guard)
	ok2, cx := entails(and(start, e.preLoop(r.success())), wg0)
	c.must(ok2, "wait-group", wait.in, wait.pos, "the call can return while workers still run @@when %s", litsStr(cx))
	// the caller touches no results meanwhile
	for _, x := range r.effs {
		if x.gor == 0 && x.seq > ge.seq && x.seq < wait.seq && r.isResult(x) {
			ok := unsat(and(e.preLoop(x.guard), start))
			c.must(ok, "wait-group", x.in, x.pos, "results are written concurrently with the workers")
		}
	}
}

func sameLoops(a, b []*LoopInst) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tiles: the rows handled by all workers together are 0..nRows-1, each once.
func (r *ERun) tiles(g *Row, ge *Effect) (bool, string) {
	e := r.e
	N := r.nRows
	// the value received, if any
	var recv *Effect
	for _, x := range r.effs {
		if x.gor == g.gor && x.kind == "recv" {
			if recv != nil {
				return false, "a worker receives at two places"
			}
			recv = x
		}
	}
	if recv == nil {
		return r.tilesStatic(g, ge)
	}
	ch := recv.addr
	// all sends on the channel
	var send *Effect
	for _, x := range r.effs {
		if x.kind == "send" && x.addr == ch {
			if send != nil {
				return false, "work is handed out at two places"
			}
			if x.gor == g.gor {
				return false, "a worker hands out work itself"
			}
			send = x
		}
		if x.kind == "recv" && x.addr == ch && x.gor != g.gor {
			return false, "work is also received outside the workers"
		}
	}
	if send == nil {
		return false, "no work is handed to the workers"
	}
	// structure: receive loop in worker
	k := len(ge.loops)
	if len(recv.loops) != k+1 {
		return false, "a worker does not receive in a loop of its own"
	}
	rl := recv.loops[k]
	okT := recv.okTerm()
	if okT == nil {
		return false, "the receive does not notice the end of the work"
	}
	stop := not(bd.atom(okT))
	if ok, w := e.stopsOn(rl, stop, okT); !ok {
		return false, "the receive loop ends otherwise than by the channel being closed: " + w
	}
	if ok, cx := entails(ge.guard, e.dropInside(ge.loops, rl.entry)); !ok {
		return false, "a worker may skip its receive loop: " + litsStr(cx)
	}
	// substitution received -> sent
	if g.loop == nil || g.loop == rl {
		// one row per message
	}
	ms := []msgCase{{map[*Term]*Term{}, send.guard}}
	if !bindMsg(&ms, recv.val, send.val) {
		return false, "the message is not understood"
	}
	row := substTerm(g.r, ms[0].m)
	for _, m := range ms[1:] {
		if o := substTerm(g.r, m.m); o != row {
			return false, fmt.Sprintf("the rows of a batch start at %v or %v", row, o)
		}
	}
	blk := g.loop
	if blk == rl {
		blk = nil
	}
	// sender loop
	sl := send.loops
	pre := 0
	if send.gor != 0 {
		if fe := r.goEffect(send.gor); fe != nil {
			pre = len(fe.loops)
			if pre != 0 {
				return false, "work is handed out by several goroutines"
			}
		}
	}
	if len(sl) != 1 {
		return false, "work is not handed out by one loop"
	}
	s := sl[0]
	if ok, w := e.mustExec(send, s); !ok {
		return false, "some work is not handed out: " + w
	}
	ok, w := r.tileCover(row, blk, s, ms)
	if !ok {
		return false, w
	}
	// the row loop runs for every message
	if blk != nil {
		if len(g.reads[0].loops) <= k+1 || g.reads[0].loops[k+1] != blk {
			return false, "rows of a message are processed in an inner loop"
		}
		if ok, cx := entails(e.dropNested(rl, rl.back), e.dropInside(append(append([]*LoopInst{}, ge.loops...), rl), blk.entry)); !ok {
			return false, "a message may be ignored: " + litsStr(cx)
		}
	}
	// close after the last send, on the same channel, always
	closed := false
	for _, x := range r.effs {
		if x.kind == "close" && (x.addr == ch || len(x.args) > 0 && one(x.args[0]) == ch) {
			if x.gor != send.gor || x.seq < send.seq {
				return false, "the channel is closed before all work is handed out"
			}
			if len(x.loops) != 0 {
				return false, "the channel is closed in a loop"
			}
			if ok, cx := entails(e.preLoop(s.entry), e.preLoop(x.guard)); !ok {
				return false, "the channel is not closed when " + litsStr(cx)
			}
			if x.gor == 0 {
				for _, y := range r.effs {
					if y.gor == 0 && y.name == "(*sync.WaitGroup).Wait" && y.kind == "call" && y.seq < x.seq {
						return false, "the workers are waited for before the channel is closed"
					}
				}
			}
			closed = true
		}
	}
	if !closed {
		return false, "the channel is never closed, the workers never finish"
	}
	// at least one worker, started under the same condition and before the
	// caller hands out work
	if send.gor == 0 && ge.seq > send.seq {
		return false, "work is handed out before the workers are started"
	}
	if len(ge.loops) > 1 {
		return false, "workers are started by nested loops"
	}
	if len(ge.loops) == 1 {
		l := ge.loops[0]
		x := exists(or(l.exits...), func(t *Term) bool { return e.mentions(l, t, l.iv) })
		x0 := substNode(x, map[*Term]*Term{l.iv: intTerm(0)})
		if !unsat(and(and(l.entry, r.assume), and(x0, e.preLoop(s.entry)))) {
			// possible only when there is nothing to do
			n := and(and(l.entry, r.assume), and(x0, not(le0(polyOf(N)))))
			if !unsat(n) {
				return false, "no worker may be started although there is work"
			}
		}
		if ok, cx := entails(e.preLoop(s.entry), e.preLoop(l.entry)); !ok {
			return false, "work without workers: " + litsStr(cx)
		}
		if ok, w := e.mustExec(ge, l); !ok {
			_ = w
		}
	} else if ok, cx := entails(e.preLoop(s.entry), e.preLoop(ge.guard)); !ok {
		return false, "work without workers: " + litsStr(cx)
	}
	return true, ""
}

// okTerm: the comma-ok atom of a receive.
func (x *Effect) okTerm() *Term {
	if tv, ok := x.val.(*TupleVal); ok && len(tv.v) == 2 {
		if b, ok := tv.v[1].(BoolVal); ok {
			s := support(b.n)
			if len(s) == 1 {
				return s[0]
			}
		}
	}
	return x.okAtom
}

// msgCase: what a message holds in one case of the sender.
type msgCase struct {
	m  map[*Term]*Term
	gd *Node
}

func bindMsg(ms *[]msgCase, rv, sv Val) bool {
	if tv, ok := rv.(*TupleVal); ok && len(tv.v) == 2 {
		rv = tv.v[0]
	}
	switch a := rv.(type) {
	case *Scalar:
		if len(a.alts) != 1 {
			return false
		}
		if one(sv) == nil && len(altsOf(sv)) == 0 {
			// stays opaque
			for _, c := range *ms {
				c.m[a.alts[0].t] = toTerm(sv)
			}
			return true
		}
		var out []msgCase
		for _, c := range *ms {
			for _, b := range altsOf(sv) {
				gd := and(c.gd, b.g)
				if unsat(gd) {
					continue
				}
				m := map[*Term]*Term{a.alts[0].t: b.t}
				for k, v := range c.m {
					m[k] = v
				}
				out = append(out, msgCase{m, gd})
			}
		}
		*ms = out
		return len(out) > 0 && len(out) <= 16
	case *StructVal:
		b, ok := sv.(*StructVal)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !bindMsg(ms, a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	}
	return true
}

// tileCover: row = c*j + i (+0), j the sender's counter, i the block counter;
// j runs to ceil(N/c) and i to min(c, N-c*j).
func (r *ERun) tileCover(row *Term, blk, s *LoopInst, ms []msgCase) (bool, string) {
	e := r.e
	N := r.nRows
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	cj, rest, ok := linearIn(row, s.iv)
	if !ok {
		return false, fmt.Sprintf("the first row of a batch is not affine: %v", row)
	}
	c, isC := cj.intVal()
	if !isC || c < 1 {
		return false, fmt.Sprintf("batches start %v rows apart", cj)
	}
	if blk == nil {
		if c != 1 || !eqUnder(r.assume, rest, intTerm(0)) {
			return false, fmt.Sprintf("one row per message, but messages start %v rows apart at %v", cj, rest)
		}
	} else {
		ci, r0, ok := linearIn(rest, blk.iv)
		if !ok {
			return false, "the row is not affine in the batch counter"
		}
		if n, isC := ci.intVal(); !isC || n != 1 {
			return false, fmt.Sprintf("rows of a batch are %v apart", ci)
		}
		if !eqUnder(r.assume, r0, intTerm(0)) {
			return false, fmt.Sprintf("the first row is %v", r0)
		}
		// batch loop: stops at c rows or at N
		base := mul(intTerm(c), s.iv)
		want := or(asBool(e.binop(token.GEQ, sc(blk.iv), sc(intTerm(c)), I, B)),
			asBool(e.binop(token.GEQ, sc(add(base, blk.iv)), sc(N), I, B)))
		x0 := exists(or(blk.exits...), func(t *Term) bool { return e.mentions(blk, t, blk.iv) })
		b0 := exists(blk.back, func(t *Term) bool { return e.mentions(blk, t, blk.iv) })
		// inside the sender's range
		in := and(le0(polyScale(polyOf(s.iv), -1)), le0(polyScale(polyOf(blk.iv), -1)))
		in = and(in, not(le0(polyOf(sub(N, base))))) // c*j < N
		live := false
		for _, mc := range ms {
			x, b := substNode(x0, mc.m), substNode(b0, mc.m)
			h := and(or(x, b), and(in, exists(mc.gd, func(t *Term) bool {
				return findSub(t, func(y *Term) bool { return y != s.iv && len(e.owner[y]) > 0 }) != nil
			})))
			if !unsat(h) {
				live = true
			}
			if ok, cx := equivTh(and(x, h), and(want, h), h); !ok {
				return false, "a batch does not end after " + fmt.Sprint(c) + " rows or at the last row: " + cut(litsStr(cx), 300)
			}
			if ok, cx := equivTh(and(b, h), and(not(want), h), h); !ok {
				return false, "a batch ends early: " + cut(litsStr(cx), 300)
			}
		}
		if !live {
			return false, "the rows of a batch are never processed"
		}
	}
	// sender: one message per batch
	stop := asBool(e.binop(token.GEQ, sc(mul(intTerm(c), s.iv)), sc(N), I, B))
	if ok, w := e.isTripNode(s, stop); !ok {
		return false, "the batches handed out are not those of rows 0.." + fmt.Sprint(N) + "-1: " + w
	}
	return true, ""
}

// tilesStatic: one goroutine per batch, its rows a function of the spawn loop.
func (r *ERun) tilesStatic(g *Row, ge *Effect) (bool, string) {
	if len(ge.loops) != 1 {
		return false, "the rows of a worker come neither from a channel nor from the loop that starts it"
	}
	s := ge.loops[0]
	if ok, w := r.e.mustExec(ge, s); !ok {
		return false, "some batches get no goroutine: " + w
	}
	blk := g.loop
	if blk == s {
		blk = nil
	}
	if blk != nil {
		if ok, cx := entails(ge.guard, r.e.dropInside(ge.loops, blk.entry)); !ok {
			return false, "a worker may skip its rows: " + litsStr(cx)
		}
	}
	return r.tileCover(g.r, blk, s, []msgCase{{map[*Term]*Term{}, bd.T}})
}

// captured: a variable captured by reference by a goroutine is not assigned
// after the goroutine may have started.
func (c *Ctx) captured(p *Program, f *ssa.Function, g *ssa.Go) {
	var cells []ssa.Value
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		cells = append(cells, mc.Bindings...)
	}
	cells = append(cells, g.Call.Args...)
	after := reachableFrom(g)
	for _, v := range cells {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			continue
		}
		refs := a.Referrers()
		bad := token.NoPos
		for _, q := range *refs {
			if s, ok := q.(*ssa.Store); ok && s.Addr == a && after(s) {
				// zeroing at the declaration inside the loop re-creates the
				// variable
				bad = s.Pos()
			}
		}
		c.must(bad == token.NoPos, "captured", f, g.Pos(), "a variable captured by the goroutine is assigned after the goroutine may have started @@%s", c.pos(bad))
	}
	// inside the goroutine
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fv, ok := s.Addr.(*ssa.FreeVar); ok {
						c.must(false, "captured", fn, s.Pos(), "the goroutine assigns the captured variable %s", fv.Name())
					}
				}
			}
		}
	}
}

// reachableFrom: instructions that can execute after in, without passing the
// allocation of a fresh variable.
func reachableFrom(in ssa.Instruction) func(s *ssa.Store) bool {
	return func(s *ssa.Store) bool {
		alloc, _ := s.Addr.(*ssa.Alloc)
		type at struct {
			b *ssa.BasicBlock
			i int
		}
		idx := 0
		for i, x := range in.Block().Instrs {
			if x == in {
				idx = i + 1
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		work := []at{{in.Block(), idx}}
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			stopped := false
			for i := w.i; i < len(w.b.Instrs); i++ {
				if w.b.Instrs[i] == ssa.Instruction(s) {
					return true
				}
				if alloc != nil && w.b.Instrs[i] == ssa.Instruction(alloc) {
					stopped = true
					break
				}
			}
			if stopped {
				continue
			}
			for _, n := range w.b.Succs {
				if !seen[n] {
					seen[n] = true
					work = append(work, at{n, 0})
				}
			}
		}
		return false
	}
}

// dropInside forgets facts about loops nested inside the given ones.
func (e *Engine) dropInside(ls []*LoopInst, g *Node) *Node {
	in := map[*LoopInst]bool{}
	for _, l := range ls {
		in[l] = true
	}
	return exists(g, func(t *Term) bool {
		return findSub(t, func(x *Term) bool {
			for _, o := range e.owner[x] {
				if !in[o] {
					return true
				}
			}
			return false
		}) != nil
	})
}

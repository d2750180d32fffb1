package main

// Rules about the four prediction entry points (C02-C08). They run on the
// per-row summaries of rows.go.

import (
	"fmt"
	"go/token"
	"go/types"
)

var entries = []string{"PredictSingle", "Predict", "PredictCSR", "PredictDense"}

// predRuns runs f on every shape of ensemble and every entry point.
func (p *Program) predRuns(c *Ctx, rule string, f func(r *ERun)) {
	for _, w := range p.worlds() {
		for _, en := range entries {
			w, en := w, en
			c.worldTag = en + " on " + w.name
			c.guarded(rule, p.fn("", "Ensemble."+en), func() {
				r := p.ensembleRun(w, en)
				c.analysed(r.fn)
				f(r)
			})
			c.worldTag = ""
		}
	}
}

// noLeaves: the world asks for leaf indices of a model that has no trees.
func (r *ERun) noLeaves(p *Program) bool {
	if r.kind != "LeafIndex" {
		return false
	}
	return !r.hasTrees(p)
}

func (r *ERun) hasTrees(p *Program) bool {
	lt := p.typ("", "lgTree")
	for _, f := range fieldsOf(r.w.modelT) {
		if sl, ok := f.Type().(*types.Slice); ok {
			el := sl.Elem()
			if pt, ok := el.(*types.Pointer); ok {
				el = pt.Elem()
			}
			if types.Identical(el, lt) {
				return true
			}
		}
	}
	return false
}

// success: the condition under which the entry point reports success.
func (r *ERun) success() *Node {
	g := bd.F
	for _, rt := range r.rets {
		if r.entry == "PredictSingle" {
			g = or(g, rt.g)
			continue
		}
		g = or(g, and(rt.g, errIsNil(rt.val)))
	}
	return and(g, r.assume)
}

// eqUnder: a == b whenever g.
func eqUnder(g *Node, a, b *Term) bool {
	if a == b {
		return true
	}
	d := sub(a, b)
	if ok, _ := entails(g, eq0(polyOf(d))); ok {
		return true
	}
	// divide by a common factor
	ms := polyOf(d)
	if len(ms) == 0 {
		return true
	}
	for _, f := range ms[0].fs {
		q, rem, ok := polyDivBy(d, f)
		if ok {
			if n, isC := rem.intVal(); isC && n == 0 && q != d {
				if eqUnder(g, q, intTerm(0)) {
					return true
				}
			}
		}
	}
	return false
}

// topGuard: condition, before any loop, under which the outermost loop of an
// effect is entered.
func topGuard(g *Node, loops []*LoopInst, outer *LoopInst) *Node {
	if len(loops) > 0 {
		return loops[0].entry
	}
	return g
}

// goEffect: the statement that starts goroutine gor.
func (r *ERun) goEffect(gor int) *Effect {
	for _, x := range r.effs {
		if x.kind == "go" && int(x.pos) == gor {
			return x
		}
	}
	return nil
}

// idx: position in the result of a result store.
func (x *Effect) idx() *Term {
	if x.addr.op == "index" {
		return x.addr.args[1]
	}
	return nil
}

// resultIdx: result position of a store through slices of the result.
func (r *ERun) resultIdx(addr *Term) *Term {
	if addr.op != "index" {
		return nil
	}
	base, lo, _ := sliceBase(addr.args[0])
	if base != r.result {
		return nil
	}
	if lo == nil {
		return addr.args[1]
	}
	return add(lo, addr.args[1])
}

func (r *ERun) groupOf(x *Effect) *Row {
	for _, g := range r.rows {
		for _, s := range g.stores {
			if s == x {
				return g
			}
		}
	}
	return nil
}

// rule C02: each row writes its own block of the result, completely.
func ruleRowWrites(p *Program, c *Ctx) {
	p.predRuns(c, "row-block", func(r *ERun) {
		c.rowWrites(p, r)
	})
}

func (c *Ctx) rowWrites(p *Program, r *ERun) {
	if r.noLeaves(p) {
		c.must(len(r.rows) > 0 || r.constant || unsat(r.success()), "row-cover", r.fn, r.fn.Pos(), "success is reported but no row is ever processed (%s)", r.w.model+" "+r.kind)
		return
	}
	if r.loadErr != "" {
		c.violate("row-source", r.fn, r.fn.Pos(), "the row a result belongs to cannot be determined @@%s", r.loadErr)
		return
	}
	// PredictSingle promises a value only for one output group
	O := r.O
	if r.entry == "PredictSingle" {
		O = intTerm(1)
	}
	for _, x := range r.effs {
		switch x.kind {
		case "store":
			if !r.isResult(x) {
				continue
			}
			if x.addr.op == "alloc" { // zeroing of a local result buffer
				continue
			}
			idx := r.resultIdx(x.addr)
			if idx == nil {
				c.violate("row-block", x.in, x.pos, "a store into the result with an unknown position @@%v", x.addr)
				continue
			}
			g := r.groupOf(x)
			if g == nil {
				c.violate("row-block", x.in, x.pos, "the result is written outside the processing of a row")
				continue
			}
			gd := and(x.guard, r.assume)
			if r.entry == "PredictSingle" {
				gd = and(gd, eq0(polyOf(sub(r.O, intTerm(1)))))
			}
			if r.kind == "LeafIndex" {
				gd = and(gd, not(le0(polyOf(one(r.E)))))
			}
			ivs := ivsOf(loopsAfter(x, g.loop))
			lo := mul(g.r, O)
			hi := sub(add(lo, O), intTerm(1))
			ok1, w1 := r.e.proveLE(lo, idx, gd, ivs)
			c.must(ok1, "row-block", x.in, x.pos, "a result position below the row's block is written @@%v for row %v: %s", idx, g.r, w1)
			ok2, w2 := r.e.proveLE(idx, hi, gd, ivs)
			if !ok2 {
				ok2, w2 = r.proveBelow(x, g, idx, lo, O, gd)
			}
			c.must(ok2, "row-block", x.in, x.pos, "a result position above the row's block is written @@%v for row %v: %s", idx, g.r, w2)
		case "copy", "append", "clear":
			for _, a := range x.args {
				if t := one(a); t != nil && rootOf(t) == r.result && x.kind != "append" {
					if len(x.args) > 0 && one(x.args[0]) == t {
						c.violate("row-block", x.in, x.pos, "the result is written by %s", x.kind)
					}
				}
			}
		case "call", "invoke", "go":
			if x.pure || (x.fn != nil && p.isTransform(x.fn)) {
				continue
			}
			if x.kind == "go" {
				continue
			}
			for _, a := range x.args {
				if t := one(a); t != nil && rootOf(t) == r.result {
					c.violate("row-block", x.in, x.pos, "the result buffer is handed to %s", x.name)
				}
			}
		}
	}
	// rows
	okAll := bd.F
	if len(r.rows) == 0 && !unsat(and(r.success(), not(le0(polyOf(r.nRows))))) {
		c.violate("row-cover", r.fn, r.fn.Pos(), "no processing of rows found")
	}
	for _, g := range r.rows {
		if len(g.reads) == 0 {
			continue
		}
		rd := g.reads[0]
		if g.gor == 0 {
			if g.loop == nil {
				okAll = or(okAll, g.top(p))
				c.must(eqUnder(r.assume, g.r, intTerm(0)) && (r.entry == "Predict" || r.entry == "PredictSingle"), "row-cover", rd.in, rd.pos, "one row (%v) is processed where all rows are expected", g.r)
			} else {
				okAll = or(okAll, topGuard(rd.guard, rd.loops, nil))
				ok, w := g.coversAll()
				c.must(ok, "row-cover", rd.in, rd.pos, "the rows processed are not exactly 0..%v-1 @@row %v: %s", r.nRows, g.r, w)
				// the row loop itself is reached once
				if ok {
					outer := g.outerLoops(rd)
					c.must(len(outer) == 0, "row-cover", rd.in, rd.pos, "the loop over rows is itself repeated")
				}
			}
		} else if ge := r.goEffect(g.gor); ge != nil {
			okAll = or(okAll, topGuard(ge.guard, ge.loops, nil))
		}
		ok, w := g.cellsWritten(p, O)
		c.must(ok, "row-cells", rd.in, rd.pos, "some of the row's result cells may be left unwritten @@%s", w)
	}
	if r.entry == "PredictSingle" {
		return
	}
	s := and(r.success(), not(le0(polyOf(r.nRows))))
	ok, cx := entails(r.e.preLoop(s), r.e.preLoop(okAll))
	c.must(ok, "row-success", r.fn, r.fn.Pos(), "success can be reported without processing the rows @@when %s", litsStr(cx))
}

// preLoop forgets facts about loop counters.
func (e *Engine) preLoop(g *Node) *Node {
	return exists(g, func(t *Term) bool {
		return findSub(t, func(x *Term) bool { return len(e.owner[x]) > 0 }) != nil
	})
}

func (g *Row) top(p *Program) *Node {
	x := bd.F
	for _, rd := range g.reads {
		x = or(x, topGuard(rd.guard, rd.loops, nil))
	}
	for _, s := range g.stores {
		if g.run.isResult(s) {
			x = or(x, topGuard(s.guard, s.loops, nil))
		}
	}
	for _, s := range g.tcalls {
		x = or(x, topGuard(s.guard, s.loops, nil))
	}
	return x
}

func (g *Row) outerLoops(x *Effect) []*LoopInst {
	for i, l := range x.loops {
		if l == g.loop {
			return x.loops[:i]
		}
	}
	return nil
}

// coversAll: the row loop visits every row exactly once.
func (g *Row) coversAll() (bool, string) {
	r := g.run
	co, start, ok := linearIn(g.r, g.loop.iv)
	if !ok {
		return false, "the row is not an affine function of the loop counter"
	}
	n, isC := co.intVal()
	if !isC || (n != 1 && n != -1) {
		return false, fmt.Sprintf("rows are visited with stride %v", co)
	}
	if n == 1 && !eqUnder(r.assume, start, intTerm(0)) {
		return false, fmt.Sprintf("the first row is %v", start)
	}
	if n == -1 && !eqUnder(r.assume, start, sub(r.nRows, intTerm(1))) {
		return false, fmt.Sprintf("the first row is %v", start)
	}
	// dense input: number of rows
	ok, w := r.e.isTrip(g.loop, sc(r.nRows), r.assume)
	return ok, w
}

// proveBelow: idx < lo+O through the trip counts of a nest of loops whose
// strides multiply up (k*n+i with i<n, k<G).
func (r *ERun) proveBelow(x *Effect, g *Row, idx, lo, O *Term, gd *Node) (bool, string) {
	nest, rest, ok := r.nestOf(x, g, idx)
	if !ok {
		return false, "not an affine position"
	}
	if !eqUnder(gd, rest, lo) {
		return false, fmt.Sprintf("the first position is %v", rest)
	}
	// order by stride: 1, t1, t1*t2...
	return r.nestFills(nest, O, gd, false)
}

type stride struct {
	l  *LoopInst
	co *Term
}

func (r *ERun) nestOf(x *Effect, g *Row, idx *Term) (nest []stride, rest *Term, ok bool) {
	rest = idx
	for _, l := range loopsAfter(x, g.loop) {
		co, rs, ok := linearIn(rest, l.iv)
		if !ok {
			return nil, nil, false
		}
		if n, isC := co.intVal(); isC && n == 0 {
			continue
		}
		nest = append(nest, stride{l, co})
		rest = rs
	}
	return nest, rest, true
}

// candidates for trip counts: the sizes a row can have.
func (r *ERun) sizes() []Val {
	v := []Val{sc(r.G), sc(r.O), r.n, r.E}
	if one(r.E) == nil || one(r.n) == nil {
		for _, a := range altsOf(r.n) {
			v = append(v, sc(a.t))
		}
	}
	et := one(r.E)
	if et != nil {
		v = append(v, sc(mul(r.G, et)))
	}
	for _, a := range altsOf(r.n) {
		v = append(v, sc(mul(r.G, a.t)))
	}
	return v
}

// nestFills: the loops enumerate exactly the positions 0..O-1.
func (r *ERun) nestFills(nest []stride, O *Term, gd *Node, exact bool) (bool, string) {
	size := intTerm(1)
	left := append([]stride{}, nest...)
	for len(left) > 0 {
		found := -1
		for i, s := range left {
			if eqUnder(gd, s.co, size) {
				found = i
				break
			}
		}
		if found < 0 {
			return false, fmt.Sprintf("no loop advances by %v", size)
		}
		l := left[found].l
		var trip *Term
		for _, v := range r.sizes() {
			if ok, _ := r.e.isTrip(l, v, r.assume); ok {
				for _, a := range altsOf(v) {
					if eqUnder(gd, a.t, a.t) && !unsat(and(gd, a.g)) {
						if ok, _ := entails(gd, a.g); ok || len(altsOf(v)) == 1 {
							trip = a.t
						}
					}
				}
				if trip == nil {
					// several values, all equal under the guard?
					as := altsOf(v)
					same := true
					for _, a := range as[1:] {
						if !eqUnder(and(gd, a.g), as[0].t, a.t) {
							same = false
						}
					}
					if same {
						trip = as[0].t
					}
				}
				if trip != nil {
					break
				}
			}
		}
		if trip == nil {
			_, w := r.e.isTrip(l, sc(r.G), r.assume)
			return false, "a loop over result positions has an unexpected number of rounds: " + w
		}
		size = mul(size, trip)
		left = append(left[:found], left[found+1:]...)
	}
	if !eqUnder(gd, size, O) {
		return false, fmt.Sprintf("%v positions are visited, the row has %v", size, O)
	}
	return true, ""
}

// cellsWritten: every position of the row's block receives a value.
func (g *Row) cellsWritten(p *Program, O *Term) (bool, string) {
	r := g.run
	why := "no complete initialisation found"
	for _, x := range g.tcalls {
		ok, w := g.transformCovers(x)
		if ok {
			if ok, w = r.e.mustExec(x, g.loop); ok {
				return true, ""
			}
		}
		why = w
	}
	for _, x := range g.stores {
		if !r.isResult(x) {
			continue
		}
		idx := r.resultIdx(x.addr)
		if idx == nil {
			continue
		}
		gd := and(x.guard, r.assume)
		if r.entry == "PredictSingle" {
			gd = and(gd, eq0(polyOf(sub(r.O, intTerm(1)))))
		}
		nest, rest, ok := r.nestOf(x, g, idx)
		if !ok || !eqUnder(gd, rest, mul(g.r, O)) {
			if ok {
				why = fmt.Sprintf("the first position written is %v, the row starts at %v", rest, mul(g.r, O))
			}
			continue
		}
		ok, w := r.nestFills(nest, O, gd, true)
		if !ok && r.entry == "PredictSingle" && len(nest) <= 1 {
			// G == 1
			ok, w = r.nestFills(nest, r.G, gd, true)
		}
		if !ok {
			why = w
			continue
		}
		ok, w = r.e.mustExec(x, g.loop)
		if !ok {
			// several stores under complementary conditions are fine only
			// when together they always run
			why = w
			continue
		}
		return true, ""
	}
	return false, why
}

// transformCovers: the transformation is applied to this row's complete raw
// scores and writes at the row's first position.
func (g *Row) transformCovers(x *Effect) (bool, string) {
	r := g.run
	if len(x.args) != 4 {
		return false, "unexpected arguments of Transform"
	}
	if t := one(x.args[0]); t == nil || t != r.w.tr {
		return false, fmt.Sprintf("the transformation applied is %s, not the ensemble's own", vstr(x.args[0]))
	}
	out, st := one(x.args[2]), one(x.args[3])
	if out == nil || st == nil {
		return false, "the output position of Transform has several values"
	}
	base, lo, _ := sliceBase(out)
	if base != r.result {
		return false, fmt.Sprintf("Transform writes into %v", out)
	}
	pos := st
	if lo != nil {
		pos = add(lo, st)
	}
	O := r.O
	if r.entry == "PredictSingle" {
		O = intTerm(1)
	}
	if !eqUnder(and(x.guard, r.assume), pos, mul(g.r, O)) {
		return false, fmt.Sprintf("Transform writes at %v, the row starts at %v", pos, mul(g.r, O))
	}
	return true, ""
}

func (p *Program) fnPos(pos token.Pos) string { return p.prog.Fset.Position(pos).String() }

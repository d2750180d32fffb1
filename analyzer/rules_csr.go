package main

// C04: sparse rows. An explicit entry reaches the feature of its column, an
// absent feature has the model's default value, nothing leaks between rows.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loaderModels: the model types built by a loader.
func (p *Program) loaderModels(name string) map[string]bool {
	out := map[string]bool{}
	s := p.shape()
	is := map[string]bool{}
	for _, m := range s.models {
		is[baseName(m)] = true
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if pt, ok := x.Type().(*types.Pointer); ok && is[baseName(pt.Elem())] {
						if _, n := pt.Elem().(*types.Named); n {
							out[baseName(pt.Elem())] = true
						}
					}
				case ssa.CallInstruction:
					walk(x.Common().StaticCallee())
				}
			}
		}
	}
	walk(p.fn("", name))
	return out
}

// absentNaN: a missing feature of the model is NaN (XGBoost trees), else 0.
func (p *Program) absentNaN(model string) bool {
	x := p.loaderModels("XGEnsembleFromReader")
	if !x[model] {
		return false
	}
	for _, o := range []string{"LGEnsembleFromReader", "LGEnsembleFromJSON", "SKEnsembleFromReader", "XGBLinearFromReader"} {
		if p.loaderModels(o)[model] {
			panic(undecided("one model type is built by XGBoost and other loaders"))
		}
	}
	return true
}

func isNaNTerm(t *Term) bool {
	if t.op == "nan" {
		return true
	}
	v, ok := t.floatVal()
	return ok && v != v
}

func ruleSparse(p *Program, c *Ctx) {
	for _, l := range []string{"LGEnsembleFromReader", "LGEnsembleFromJSON", "SKEnsembleFromReader", "XGEnsembleFromReader", "XGBLinearFromReader"} {
		c.must(len(p.loaderModels(l)) == 1, "defaults", p.fn("", l), 0, "the model type built by %s cannot be determined", l)
	}
	p.predRuns(c, "sparse", func(r *ERun) {
		if r.entry != "PredictCSR" || r.noLeaves(p) {
			return
		}
		if !c.must(r.loadErr == "", "fill", r.fn, r.fn.Pos(), "the features of a sparse row do not come from that row's entries @@%s", r.loadErr) {
			return
		}
		n := 0
		for _, g := range r.rows {
			if len(g.reads) > 0 {
				n++
				c.sparseRow(p, r, g)
			}
		}
		c.must(n > 0, "fill", r.fn, r.fn.Pos(), "no row is processed")
	})
}

type reset struct {
	seq  int
	x    *Effect
	full bool
	own  *LoopInst // loop over the cells, nil for clear
	gd   *Node
	lps  []*LoopInst
}

func (c *Ctx) sparseRow(p *Program, r *ERun, g *Row) {
	e := r.e
	rd := g.reads[0]
	in, pos := rd.in, rd.pos
	if !c.must(g.scr != nil && isFreshRoot(rootOf(g.scr)), "scratch", in, pos, "a sparse row is not expanded into memory of its own") {
		return
	}
	F := r.F
	ln := lenTerm(g.scr)
	lenOK := true
	for _, a := range altsOf(F) {
		gd := and(and(rd.guard, a.g), r.assume)
		if unsat(gd) {
			continue
		}
		if !eqGV(gd, ln, a.t) {
			lenOK = false
		}
	}
	c.must(lenOK, "scratch", in, pos, "the expanded row does not have one place per feature of the model @@%v", ln)
	// everything that writes the scratch row
	defNaN := p.absentNaN(r.w.model)
	isDef := func(t *Term) bool {
		if defNaN {
			return isNaNTerm(t)
		}
		v, ok := t.floatVal()
		return ok && v == 0
	}
	firstFill, lastFill, firstRead, lastRead := 1<<30, -1, 1<<30, -1
	for _, x := range g.fills {
		s := r.seqOf(x)
		if s < firstFill {
			firstFill = s
		}
		if s > lastFill {
			lastFill = s
		}
	}
	for _, x := range g.reads {
		s := r.seqOf(x)
		if s < firstRead {
			firstRead = s
		}
		if s > lastRead {
			lastRead = s
		}
	}
	if !c.must(len(g.fills) > 0, "fill", in, pos, "the entries of the row are never stored") {
		return
	}
	for _, x := range g.fills {
		row, jl, why := r.fillRow(x)
		if !c.must(row != nil, "fill", x.in, x.pos, "an entry of a sparse row is stored wrongly @@%s", why) {
			return
		}
		c.must(eqUnder(and(x.guard, r.assume), row, g.r), "fill", x.in, x.pos, "row %v is filled with the entries of row %v", g.r, row)
		col := x.addr.args[1]
		I, B := types.Typ[types.Int], types.Typ[types.Bool]
		inF := asBool(e.binop(token.LSS, sc(col), F, I, B))
		neg := asBool(e.binop(token.LSS, sc(col), sc(intTerm(0)), I, B))
		ok, cx := entails(and(x.guard, r.assume), inF)
		c.must(ok, "fill-range", x.in, x.pos, "an entry whose column is beyond the model's features is not ignored @@%s", litsStr(cx))
		ok, w := e.mustReach(or(x.guard, or(neg, not(inF))), x.loops, g.loop)
		c.must(ok, "fill-all", x.in, x.pos, "an entry of a sparse row can be dropped @@%s", w)
		for _, rdx := range g.reads {
			c.must(!hasLoop(rdx.loops, jl), "fill-order", rdx.in, rdx.pos, "a row is evaluated before all its entries are stored")
		}
	}
	c.must(lastFill < firstRead, "fill-order", in, pos, "a row is evaluated before its entries are stored")
	var resets []*reset
	for i, x := range r.effs {
		if x.gor != g.gor {
			continue
		}
		switch x.kind {
		case "store":
			if x.addr.op != "index" || rootOf(x.addr) != rootOf(g.scr) || x.addr == rootOf(g.scr) {
				continue
			}
			isF := false
			for _, y := range g.fills {
				if x == y {
					isF = true
				}
			}
			if isF {
				continue
			}
			if r.isFill(x) {
				vt := one(x.val)
				if vt == nil || len(indexLoads(vt, one(r.ps[3]))) > 0 {
					if inLoop(x, g.loop) {
						c.violate("fill", x.in, x.pos, "entries of another row are stored")
					}
					continue
				}
			}
			good := true
			for _, a := range altsOf(x.val) {
				if !unsat(and(x.guard, a.g)) && !isDef(a.t) {
					good = false
				}
			}
			if !c.must(good, "default", x.in, x.pos, "an absent feature is set to %s instead of %s", vstr(x.val), map[bool]string{true: "NaN", false: "0"}[defNaN]) {
				continue
			}
			rs := &reset{seq: i, x: x, gd: x.guard, lps: x.loops}
			// full: one loop over all cells
			if len(x.loops) > 0 {
				l := x.loops[len(x.loops)-1]
				full := true
				for _, ia := range gvAlts(x.addr.args[1]) {
					gd := and(and(x.guard, r.assume), ia.g)
					if unsat(gd) {
						continue
					}
					co, st, ok := linearIn(ia.t, l.iv)
					n, isC := int64(0), false
					if ok {
						n, isC = co.intVal()
					}
					if !(isC && ((n == 1 && isZeroT(st)) || (n == -1 && eqGV(gd, add(st, intTerm(1)), ln)))) {
						full = false
					}
				}
				if full {
					{
						if ok, _ := e.isTrip(l, sc(ln), r.assume); ok {
							rs.full, rs.own = true, l
						} else if ok, _ := e.isTrip(l, F, r.assume); ok {
							rs.full, rs.own = true, l
						}
					}
				}
			}
			if !rs.full && r.touched(x, g) {
				rs.own = nil
				resets = append(resets, rs)
				continue
			}
			if rs.full {
				resets = append(resets, rs)
			}
		case "clear":
			if x.addr == g.scr && !defNaN {
				resets = append(resets, &reset{seq: i, x: x, full: true, gd: x.guard, lps: x.loops})
			}
		}
	}
	must := func(rs *reset, outer *LoopInst) bool {
		gd := rs.gd
		if !rs.full {
			col := rs.x.addr.args[1]
			I, B := types.Typ[types.Int], types.Typ[types.Bool]
			gd = or(gd, not(asBool(e.binop(token.LSS, sc(col), F, I, B))))
			gd = or(gd, asBool(e.binop(token.LSS, sc(col), sc(intTerm(0)), I, B)))
		}
		ok, _ := e.mustReach(gd, rs.lps, outer)
		return ok
	}
	root := rootOf(g.scr)
	clean := false
	// new memory or a reset at the start of every row
	if g.loop != nil && e.rootIn(root, g.loop) || g.loop == nil {
		if !defNaN {
			clean = true
		}
	}
	for _, rs := range resets {
		if rs.full && rs.seq < firstFill && inLoop(rs.x, g.loop) && (g.loop != nil && must(rs, g.loop) || g.loop == nil) {
			clean = true
		}
	}
	if clean {
		c.must(true, "default", in, pos, "")
		return
	}
	// or: clean at first, and cleaned again after every row
	again := false
	for _, rs := range resets {
		if rs.seq > lastRead && inLoop(rs.x, g.loop) && must(rs, g.loop) {
			again = true
		}
	}
	c.must(again, "leak", in, pos, "entries of one sparse row can remain in the next row")
	first := !defNaN
	for _, rs := range resets {
		if first {
			break
		}
		if !rs.full || rs.seq > firstFill || inLoop(rs.x, g.loop) {
			continue
		}
		// executed where the scratch row is made
		own := e.owner[root]
		outer := rs.lps
		if rs.own != nil {
			outer = outer[:len(outer)-1]
		}
		if len(outer) != len(own) {
			continue
		}
		same := true
		for i := range own {
			if own[i] != outer[i] {
				same = false
			}
		}
		if !same {
			continue
		}
		eg := rs.gd
		if rs.own != nil {
			eg = rs.own.entry
			if ok, _ := e.mustReach(rs.gd, rs.lps, rs.own); !ok {
				continue
			}
		}
		if ok, _ := entails(e.preLoop(rd.guard), e.preLoop(eg)); ok {
			first = true
		}
	}
	c.must(first, "default", in, pos, "absent features of the first row do not have the model's default value")
}

// touched: the reset of exactly the cells the row's entries have set.
func (r *ERun) touched(x *Effect, g *Row) bool {
	cols, indptr := one(r.ps[2]), one(r.ps[1])
	c := x.addr.args[1]
	if c.op != "load" || c.args[0].op != "index" || c.args[0].args[0] != cols {
		return false
	}
	j := c.args[0].args[1]
	for i := len(x.loops) - 1; i >= 0; i-- {
		l := x.loops[i]
		co, start, ok := linearIn(j, l.iv)
		if !ok {
			continue
		}
		if n, isC := co.intVal(); !isC || n != 1 {
			continue
		}
		if start.op != "load" || start.args[0].op != "index" || start.args[0].args[0] != indptr {
			return false
		}
		row := start.args[0].args[1]
		if !eqUnder(and(x.guard, r.assume), row, g.r) {
			return false
		}
		end := mkTerm("load", start.aux, start.typ, indexAddr(indptr, add(row, intTerm(1)), types.Typ[types.Int]))
		ok, _ = r.e.isTrip(l, sc(sub(end, start)), r.assume)
		return ok
	}
	return false
}

// eqGV: equality where a may stand for several values.
func eqGV(gd *Node, a, b *Term) bool {
	if a == b {
		return true
	}
	for _, x := range gvAlts(a) {
		for _, y := range gvAlts(b) {
			g := and(gd, and(x.g, y.g))
			if unsat(g) {
				continue
			}
			if !eqUnder(g, x.t, y.t) {
				return false
			}
		}
	}
	return true
}

func gvAlts(t *Term) []Alt {
	if t.op == "gv" {
		return t.obj.(*Scalar).alts
	}
	return []Alt{{bd.T, t}}
}

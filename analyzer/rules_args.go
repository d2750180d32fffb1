package main

// C05: arguments that do not fit the model are refused before anything is
// evaluated or written, arguments that fit are not.

import (
	"go/token"
	"go/types"
)

func ruleArgs(p *Program, c *Ctx) {
	p.predRuns(c, "args", func(r *ERun) {
		if r.constant {
			return
		}
		valid, names := r.valid(p)
		ok := bd.T
		for _, v := range valid {
			ok = and(ok, v)
		}
		if r.kind == "LeafIndex" {
			for _, a := range altsOf(r.E) { // an ensemble without trees has no leaves
				ok = and(ok, or(not(a.g), not(le0(polyOf(a.t)))))
			}
		}
		// nothing happens for arguments that do not fit
		for _, x := range r.effs {
			what := ""
			switch {
			case x.kind == "store" && r.isResult(x) && x.addr.op == "index":
				what = "the result is written"
			case x.kind == "call" && x.fn != nil && p.treeFn(x.fn):
				what = "a tree is evaluated"
			case x.kind == "call" && x.fn != nil && p.isTransform(x.fn):
				what = "the transformation is applied"
			default:
				continue
			}
			if r.entry == "PredictSingle" && what == "the result is written" && !inAny(r, x) {
				continue
			}
			for i, v := range valid {
				good, cx := entails(and(x.guard, r.assume), v)
				c.must(good, "refused", x.in, x.pos, "%s although %s @@when %s", what, names[i], cut(litsStr(cx), 300))
			}
		}
		// arguments that fit are not refused
		if r.entry == "PredictSingle" {
			for _, rt := range r.rets {
				for _, a := range altsOf(rt.val) {
					if v, isC := a.t.floatVal(); isC && v == 0 {
						bad := and(and(and(rt.g, a.g), r.assume), ok)
						top := bd.F
						for _, g := range r.rows {
							top = or(top, g.top(p))
						}
						bad = and(r.e.preLoop(bad), not(r.e.preLoop(top)))
						c.must(unsat(bad), "accepted", r.fn, rt.pos, "0 is returned although the arguments fit @@when %s", first(bad))
					}
				}
			}
			return
		}
		err := bd.F
		for _, rt := range r.rets {
			err = or(err, and(rt.g, not(errIsNil(rt.val))))
		}
		bad := and(and(r.e.preLoop(and(err, r.assume)), ok), not(le0(polyOf(r.nRows))))
		c.must(unsat(bad) || unsat(and(r.e.lens(and(err, r.assume)), ok, not(le0(polyOf(r.nRows))))), "accepted", r.fn, r.fn.Pos(), "arguments that fit the model are refused @@when %s", first(bad))
	})
}

func first(g *Node) string {
	ok, cx := entails(g, bd.F)
	if ok {
		return ""
	}
	return cut(litsStr(cx), 300)
}

func inAny(r *ERun, x *Effect) bool {
	return r.groupOf(x) != nil
}

func (r *ERun) valid(p *Program) (cond []*Node, names []string) {
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	ge := func(a, b Val) *Node { return asBool(r.e.binop(token.GEQ, a, b, I, B)) }
	addc := func(n *Node, s string) { cond = append(cond, n); names = append(names, s) }
	if r.entry == "PredictSingle" {
		addc(eq0(polyOf(sub(r.O, intTerm(1)))), "the ensemble has several outputs")
	} else {
		addc(ge(sc(lenTerm(r.result)), sc(mul(r.O, r.nRows))), "the result slice is too short")
	}
	switch r.entry {
	case "PredictSingle", "Predict":
		addc(ge(sc(lenTerm(one(r.ps[1]))), r.F), "there are fewer values than features")
	case "PredictDense":
		addc(ge(r.ps[3], r.F), "there are fewer columns than features")
		addc(not(eq0(polyOf(one(r.ps[3])))), "there are no columns")
		addc(ge(sc(lenTerm(one(r.ps[1]))), sc(mul(r.nRows, one(r.ps[3])))), "there are fewer values than rows and columns need")
	}
	if r.kind == "LeafIndex" {
		if r.noLeaves(p) {
			addc(bd.F, "the model has no leaves")
		} else {
			addc(asBool(r.e.binop(token.EQL, r.n, r.E, I, B)), "not all estimators are used for leaf indices")
		}
	}
	return
}

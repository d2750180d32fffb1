package main

// Bottom-up rewriting of terms and guards, rebuilding with the normalising
// constructors.

import (
	"go/constant"
	"go/types"
	"strconv"
)

type rewriter struct {
	f     func(*Term) *Term // nil result: keep
	memo  map[*Term]*Term
	nodes map[*Node]*Node
}

func newRewriter(f func(*Term) *Term) *rewriter {
	return &rewriter{f, map[*Term]*Term{}, map[*Node]*Node{}}
}

func (r *rewriter) term(t *Term) *Term {
	if x, ok := r.memo[t]; ok {
		return x
	}
	x := r.rebuild(t)
	if y := r.f(x); y != nil {
		x = y
	}
	r.memo[t] = x
	return x
}

func (r *rewriter) rebuild(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if t.op == "poly" {
		var out []Mono
		for _, mo := range t.poly {
			acc := []Mono{{c: mo.c}}
			for _, f := range mo.fs {
				acc = polyMul(acc, polyOf(r.term(f)))
			}
			out = append(out, acc...)
		}
		return polyTerm(polyNorm(out), t.typ)
	}
	if t.op == "gv" {
		v := t.obj.(*Scalar)
		var gs []*Node
		var vs []Val
		for _, a := range v.alts {
			gs = append(gs, r.node(a.g))
			vs = append(vs, sc(r.term(a.t)))
		}
		return toTerm(mergeVals(gs, vs))
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = r.term(a)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.op {
	case "index":
		return indexAddr(as[0], as[1], t.typ.(*types.Pointer).Elem())
	case "len":
		return lenTerm(as[0])
	case "div":
		return divTerm(as[0], as[1], t.typ)
	case "rem":
		return remTerm(as[0], as[1], t.typ)
	case "shr":
		return shrTerm(as[0], as[1], t.typ)
	case "shl":
		return shlTerm(as[0], as[1], t.typ)
	case "and", "or", "xor":
		return bitop(t.op, t.typ, as...)
	}
	x := mkTerm(t.op, t.aux, t.typ, as...)
	if x.obj == nil {
		x.obj = t.obj
	}
	return x
}

func (r *rewriter) node(n *Node) *Node {
	if n == bd.T || n == bd.F {
		return n
	}
	if x, ok := r.nodes[n]; ok {
		return x
	}
	a := bd.vars[n.v]
	var an *Node
	switch a.op {
	case "le0":
		an = le0(polyOf(r.term(a.args[0])))
	case "eq0":
		an = eq0(polyOf(r.term(a.args[0])))
	case "bit":
		k, _ := strconv.Atoi(a.aux)
		an = bitOf(r.term(a.args[0]), k)
	case "isnan":
		an = isNaN(r.term(a.args[0]))
	case "isnil":
		an = isNil(r.term(a.args[0]))
	case "eq":
		an = genEq(r.term(a.args[0]), r.term(a.args[1]))
	default:
		if t := r.term(a); t.isConst() && t.cv.Kind() == constant.Bool {
			an = bconst(constant.BoolVal(t.cv))
		} else {
			an = bd.atom(t)
		}
	}
	x := bd.ite(an, r.node(n.hi), r.node(n.lo))
	r.nodes[n] = x
	return x
}

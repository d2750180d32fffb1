package main

// Loops that run a small, fixed number of times (over a list written out in
// the source, in most cases) are evaluated iteration by iteration: every
// iteration is a straight piece of code of its own.

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 8

// trips: how often the body of l runs at most, 0 if that is not known or too
// often.
func (e *Engine) trips(fr *Frame, l *SLoop) int {
	if len(l.head.Instrs) == 0 {
		return 0
	}
	br, _ := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if br == nil || !l.body[l.head.Succs[0]] || l.body[l.head.Succs[1]] {
		return 0
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return 0
			}
		}
	}
	c, _ := br.Cond.(*ssa.BinOp)
	if c == nil || c.Op != token.LSS && c.Op != token.LEQ && c.Op != token.NEQ {
		return 0
	}
	limit, ok := e.constAt(fr, l, c.Y)
	if !ok {
		return 0
	}
	off := int64(0)
	x := c.X
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == l.head {
		k, ok := a.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0
		}
		off, x = k.Int64(), a.X
	}
	phi, _ := x.(*ssa.Phi)
	if phi == nil || phi.Block() != l.head {
		return 0
	}
	init, set := int64(0), false
	for i, p := range l.head.Preds {
		if !l.body[p] {
			v, ok := e.constAt(fr, l, phi.Edges[i])
			if !ok || set && v != init {
				return 0
			}
			init, set = v, true
			continue
		}
		a, _ := phi.Edges[i].(*ssa.BinOp)
		if a == nil || a.Op != token.ADD || a.X != ssa.Value(phi) {
			return 0
		}
		k, _ := a.Y.(*ssa.Const)
		if k == nil || k.Value == nil || k.Int64() != 1 {
			return 0
		}
	}
	if !set {
		return 0
	}
	n := limit - (init + off)
	if c.Op == token.LEQ {
		n++
	}
	if n < 1 || n > maxUnroll {
		return 0
	}
	return int(n)
}

// constAt: the number v is when l is entered.
func (e *Engine) constAt(fr *Frame, l *SLoop, v ssa.Value) (int64, bool) {
	if !isInt(v.Type()) {
		return 0, false
	}
	if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
		return 0, false
	}
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return 0, false
		}
		return k.Int64(), true
	}
	s, ok := fr.env[v].(*Scalar)
	if !ok {
		return 0, false
	}
	return one(s).intVal()
}

func (e *Engine) unroll(fr *Frame, l *SLoop, n int, entry []edge, outPend map[*ssa.BasicBlock][]edge) {
	// values of the body that are used behind the loop
	var live []ssa.Value
	for _, b := range fr.fo.rpo {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if !l.body[u.Block()] {
					live = append(live, v)
					break
				}
			}
		}
	}
	vals := make([][]Val, len(live))
	guards := make([][]*Node, len(live))
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	in := entry
	for k := 0; k <= n && len(in) > 0; k++ {
		fr.ctx = fmt.Sprintf("%s~%d.%d", ctx, l.head.Index, k)
		pend := map[*ssa.BasicBlock][]edge{}
		e.evalBlock(fr, l.head, in, pend, l)
		in = pend[l.head]
		delete(pend, l.head)
		e.evalRegion(fr, l, pend)
		in = append(in, pend[l.head]...)
		delete(pend, l.head)
		var left []*Node
		for b, es := range pend {
			outPend[b] = append(outPend[b], es...)
			for _, x := range es {
				left = append(left, x.g)
			}
		}
		if len(left) > 0 {
			g := or(left...)
			for i, v := range live {
				if fr.env[v] != nil {
					vals[i] = append(vals[i], fr.env[v])
					guards[i] = append(guards[i], g)
				}
			}
		}
	}
	if len(in) > 0 {
		panic(undecided("loop of a fixed number of iterations goes on: " + ctx))
	}
	for i, v := range live {
		if len(vals[i]) > 0 {
			fr.env[v] = mergeVals(guards[i], vals[i])
		}
	}
}

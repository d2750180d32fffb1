package main

// Bit-level dataflow: the bits of an unsigned expression as decision diagrams
// over the bits of its inputs. Exact for sums, products with constants, masks,
// shifts by constants and constant tables.

type bitvec []*Node

func constBits(n int64, w int) bitvec {
	b := make(bitvec, w)
	for i := range b {
		b[i] = bconst((uint64(n)>>uint(i))&1 == 1)
	}
	return b
}

func (a bitvec) fit(w int) bitvec {
	b := make(bitvec, w)
	for i := range b {
		b[i] = bd.F
		if i < len(a) {
			b[i] = a[i]
		}
	}
	return b
}

func (a bitvec) shift(n int) bitvec { // left
	b := make(bitvec, len(a))
	for i := range b {
		b[i] = bd.F
		if i-n >= 0 && i-n < len(a) {
			b[i] = a[i-n]
		}
	}
	return b
}

func addBits(a, b bitvec) bitvec {
	r := make(bitvec, len(a))
	c := bd.F
	for i := range a {
		x := xor(a[i], b[i])
		r[i] = xor(x, c)
		c = or(and(a[i], b[i]), and(c, x))
	}
	return r
}

func mulBits(a, b bitvec) bitvec {
	r := constBits(0, len(a))
	for i, k := range b {
		if k == bd.F {
			continue
		}
		s := a.shift(i)
		for j := range s {
			s[j] = and(s[j], k)
		}
		r = addBits(r, s)
	}
	return r
}

func negBits(a bitvec) bitvec {
	r := make(bitvec, len(a))
	for i := range a {
		r[i] = not(a[i])
	}
	return addBits(r, constBits(1, len(a)))
}

func eqBits(a, b bitvec) *Node {
	r := bd.T
	for i := range a {
		r = and(r, iff(a[i], b[i]))
	}
	return r
}

// bitsOf: the bits of integer expression t; inp are the words whose bits are
// the inputs.
func (e *Engine) bitsOf(t *Term, inp map[*Term]bool) bitvec {
	w := 64
	if b := basic(t.typ); b != nil && intBits(t.typ) > 0 {
		w = intBits(t.typ)
	}
	signed := !isUnsigned(t.typ)
	if inp[t] {
		r := make(bitvec, w)
		for i := range r {
			r[i] = bitOf(t, i)
		}
		return r
	}
	if n, ok := t.intVal(); ok {
		return constBits(n, w)
	}
	sub := func(x *Term, w int) bitvec {
		b := e.bitsOf(x, inp)
		if !isUnsigned(x.typ) && w > len(b) {
			for len(b) < w { // sign extension
				b = append(b, b[len(b)-1])
			}
		}
		return b.fit(w)
	}
	switch t.op {
	case "poly":
		r := constBits(0, w)
		for _, m := range t.poly {
			x := constBits(1, w)
			for i, q := range m.fs {
				if i == 0 {
					x = sub(q, w)
				} else {
					x = mulBits(x, sub(q, w))
				}
			}
			k := m.c
			if k < 0 {
				x, k = negBits(x), -k
			}
			r = addBits(r, mulBits(x, constBits(k, w)))
		}
		return r
	case "and", "or", "xor":
		r := sub(t.args[0], w)
		for _, a := range t.args[1:] {
			b := sub(a, w)
			for i := range r {
				switch t.op {
				case "and":
					r[i] = and(r[i], b[i])
				case "or":
					r[i] = or(r[i], b[i])
				default:
					r[i] = xor(r[i], b[i])
				}
			}
		}
		return r
	case "not":
		r := sub(t.args[0], w)
		for i := range r {
			r[i] = not(r[i])
		}
		return r
	case "wrap", "conv":
		if isInt(t.args[0].typ) {
			return sub(t.args[0], w)
		}
	case "shl":
		if n, ok := t.args[1].intVal(); ok {
			return sub(t.args[0], w).shift(int(n))
		}
	case "shr":
		if n, ok := t.args[1].intVal(); ok && !signed {
			b := sub(t.args[0], w)
			return b[min(int(n), w):].fit(w)
		}
	case "div":
		if n, ok := t.args[1].intVal(); ok && !signed {
			if k, ok := isPow2(n); ok {
				return sub(t.args[0], w)[k:].fit(w)
			}
		}
	case "gv":
		r := constBits(0, w)
		for _, a := range t.obj.(*Scalar).alts {
			b := sub(a.t, w)
			for i := range r {
				r[i] = or(r[i], and(a.g, b[i]))
			}
		}
		return r
	case "load":
		if a := t.args[0]; a.op == "index" && tableOf(a) != nil {
			tab := e.constTable(tableOf(a).aux)
			idx := e.bitsOf(a.args[1], inp)
			r := constBits(0, w)
			for i, v := range tab {
				at := eqBits(idx, constBits(i, len(idx)))
				if at == bd.F {
					continue
				}
				for k, b := range constBits(v, w) {
					r[k] = or(r[k], and(at, b))
				}
			}
			return r
		}
	case "call":
		switch {
		case isCall(t, "math/bits.OnesCount32", "math/bits.OnesCount64", "math/bits.OnesCount", "math/bits.OnesCount8", "math/bits.OnesCount16"):
			r := constBits(0, w)
			for _, b := range e.bitsOf(t.args[0], inp) {
				x := constBits(0, w)
				x[0] = b
				r = addBits(r, x)
			}
			return r
		case isCall(t, "math/bits.TrailingZeros32", "math/bits.TrailingZeros64", "math/bits.TrailingZeros", "math/bits.TrailingZeros8", "math/bits.TrailingZeros16"):
			return lowestBit(e.bitsOf(t.args[0], inp), w)
		}
	}
	panic(undecided("the bits of " + t.String()))
}

// lowestBit: the position of the lowest set bit (the number of bits: none).
func lowestBit(v bitvec, w int) bitvec {
	r := constBits(0, w)
	none := bd.T
	for i := 0; i <= len(v); i++ {
		at := none
		if i < len(v) {
			at = and(none, v[i])
			none = and(none, not(v[i]))
		}
		for k, b := range constBits(int64(i), w) {
			r[k] = or(r[k], and(at, b))
		}
	}
	return r
}

// tableOf: the package variable an element belongs to.
func tableOf(a *Term) *Term {
	b := a.args[0]
	if b.op == "load" {
		b = b.args[0]
	}
	if b.op == "global" {
		return b
	}
	return nil
}

// constTable: the elements of a package variable that is never changed.
func (e *Engine) constTable(name string) map[int64]int64 {
	for g, el := range e.globElems {
		if g.Pkg.Pkg.Path()+"."+g.Name() != name {
			continue
		}
		out := map[int64]int64{}
		for i, v := range el {
			n, ok := int64(0), false
			if t := one(v); t != nil {
				n, ok = t.intVal()
			}
			if !ok {
				panic(undecided("the values of " + name))
			}
			out[i] = n
		}
		return out
	}
	panic(undecided("the values of " + name))
}

package main

// Transfer functions for operators on terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
)

func flattenOp(op string, ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.op == op {
			out = append(out, t.args...)
		} else {
			out = append(out, t)
		}
	}
	return out
}

// bitop: associative-commutative bit operators with constant folding.
func bitop(op string, typ types.Type, ts ...*Term) *Term {
	ts = flattenOp(op, ts)
	var cst int64
	have := false
	if op == "and" {
		cst = -1
	}
	seen := map[*Term]bool{}
	var rest []*Term
	for _, t := range ts {
		if n, ok := t.intVal(); ok {
			have = true
			switch op {
			case "and":
				cst &= n
			case "or":
				cst |= n
			case "xor":
				cst ^= n
			}
			continue
		}
		if op != "xor" && seen[t] {
			continue
		}
		seen[t] = true
		rest = append(rest, t)
	}
	if have {
		full := int64(-1)
		if isUnsigned(typ) && intBits(typ) < 64 {
			full = 1<<uint(intBits(typ)) - 1
		}
		switch {
		case op == "and" && cst == 0:
			return constTerm(constant.MakeInt64(0), typ)
		case op == "and" && cst&full == full:
			have = false
		case op != "and" && cst == 0:
			have = false
		}
	}
	if have {
		rest = append(rest, constTerm(constant.MakeInt64(cst), typ))
	}
	if len(rest) == 0 {
		if op == "and" {
			return constTerm(constant.MakeInt64(cst), typ)
		}
		return constTerm(constant.MakeInt64(0), typ)
	}
	if len(rest) == 1 {
		return rest[0]
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	return mkTerm(op, "", typ, rest...)
}

func nonnegPoly(t *Term) bool {
	if nonneg(t) {
		return true
	}
	if t.op == "poly" {
		for _, m := range t.poly {
			if m.c < 0 {
				return false
			}
			for _, f := range m.fs {
				if !nonneg(f) {
					return false
				}
			}
		}
		return true
	}
	if t.op == "div" || t.op == "rem" || t.op == "shr" {
		return nonnegPoly(t.args[0])
	}
	return false
}

func isPow2(n int64) (int, bool) {
	if n <= 0 || n&(n-1) != 0 {
		return 0, false
	}
	k := 0
	for n > 1 {
		n >>= 1
		k++
	}
	return k, true
}

func divTerm(a, b *Term, typ types.Type) *Term {
	x, ok1 := a.intVal()
	y, ok2 := b.intVal()
	if ok1 && ok2 && y != 0 {
		return constTerm(constant.MakeInt64(x/y), typ)
	}
	if ok2 && y == 1 {
		return a
	}
	if k, ok := isPow2(y); ok2 && ok && nonnegPoly(a) && isUnsigned(a.typ) {
		return shrTerm(a, intTerm(int64(k)), typ)
	}
	return mkTerm("div", "", typ, a, b)
}

func remTerm(a, b *Term, typ types.Type) *Term {
	x, ok1 := a.intVal()
	y, ok2 := b.intVal()
	if ok1 && ok2 && y != 0 {
		return constTerm(constant.MakeInt64(x%y), typ)
	}
	if ok2 && y > 0 {
		if _, ok := isPow2(y); ok && isUnsigned(a.typ) {
			return bitop("and", typ, a, constTerm(constant.MakeInt64(y-1), typ))
		}
	}
	return mkTerm("rem", "", typ, a, b)
}

func shrTerm(a, b *Term, typ types.Type) *Term {
	if n, ok := b.intVal(); ok {
		if n == 0 {
			return a
		}
		if x, ok := a.intVal(); ok {
			return constTerm(constant.MakeInt64(x>>uint(n)), typ)
		}
		if a.op == "shr" {
			if m, ok := a.args[1].intVal(); ok {
				return shrTerm(a.args[0], intTerm(n+m), typ)
			}
		}
	}
	return mkTerm("shr", "", typ, a, b)
}

func shlTerm(a, b *Term, typ types.Type) *Term {
	if n, ok := b.intVal(); ok {
		if x, ok := a.intVal(); ok && n < 62 {
			return normConst(x<<uint(n), typ)
		}
	}
	return mkTerm("shl", "", typ, a, b)
}

func normConst(x int64, typ types.Type) *Term {
	if b := basic(typ); b != nil && b.Info()&types.IsInteger != 0 {
		switch b.Kind() {
		case types.Uint8:
			x = int64(uint8(x))
		case types.Uint16:
			x = int64(uint16(x))
		case types.Uint32:
			x = int64(uint32(x))
		case types.Int8:
			x = int64(int8(x))
		case types.Int16:
			x = int64(int16(x))
		case types.Int32:
			x = int64(int32(x))
		}
	}
	return constTerm(constant.MakeInt64(x), typ)
}

func fwidth(t types.Type) string {
	if b := basic(t); b != nil && b.Kind() == types.Float32 {
		return "32"
	}
	return "64"
}

func fop(op string, a, b *Term, typ types.Type) *Term {
	x, ok1 := a.floatVal()
	y, ok2 := b.floatVal()
	if ok1 && ok2 && fwidth(typ) == "64" {
		var r float64
		switch op {
		case "fadd":
			r = x + y
		case "fsub":
			r = x - y
		case "fmul":
			r = x * y
		case "fdiv":
			if y == 0 {
				return mkTerm(op, fwidth(typ), typ, a, b)
			}
			r = x / y
		}
		if !math.IsInf(r, 0) && !math.IsNaN(r) {
			return floatTerm(r)
		}
	}
	if op == "fmul" {
		if ok1 && x == 1 {
			return b
		}
		if ok2 && y == 1 {
			return a
		}
	}
	if op == "fadd" {
		// x + 0.0 is kept (it maps -0 to +0) but is numerically the identity
		if ok1 && x == 0 {
			return b
		}
		if ok2 && y == 0 {
			return a
		}
	}
	if (op == "fadd" || op == "fmul") && a.id > b.id {
		a, b = b, a
	}
	return mkTerm(op, fwidth(typ), typ, a, b)
}

// wrapSub: unsigned subtraction keeps its polynomial form with an unsigned
// type, comparisons treat it as opaque (uatom).
func binTerm(op token.Token, a, b *Term, typ types.Type) *Term {
	if isFloat(typ) {
		switch op {
		case token.ADD:
			return fop("fadd", a, b, typ)
		case token.SUB:
			return fop("fsub", a, b, typ)
		case token.MUL:
			return fop("fmul", a, b, typ)
		case token.QUO:
			return fop("fdiv", a, b, typ)
		}
	}
	if isString(typ) && op == token.ADD {
		x, ok1 := a.strVal()
		y, ok2 := b.strVal()
		if ok1 && ok2 {
			return strTerm(x + y)
		}
		return mkTerm("sadd", "", typ, a, b)
	}
	if isInt(typ) {
		switch op {
		case token.ADD:
			return retype(add(a, b), typ)
		case token.SUB:
			return retype(sub(a, b), typ)
		case token.MUL:
			return retype(mul(a, b), typ)
		case token.QUO:
			return divTerm(a, b, typ)
		case token.REM:
			return remTerm(a, b, typ)
		case token.AND:
			return bitop("and", typ, a, b)
		case token.OR:
			return bitop("or", typ, a, b)
		case token.XOR:
			if n, ok := b.intVal(); ok && n == -1 {
				return notTerm(a, typ)
			}
			return bitop("xor", typ, a, b)
		case token.AND_NOT:
			return bitop("and", typ, a, notTerm(b, typ))
		case token.SHL:
			return shlTerm(a, b, typ)
		case token.SHR:
			return shrTerm(a, b, typ)
		}
	}
	return mkTerm("bin", op.String(), typ, a, b)
}

// retype gives a polynomial the operation's type (width and signedness).
func retype(t *Term, typ types.Type) *Term {
	if t.op == "poly" {
		return polyTerm(t.poly, typ)
	}
	if n, ok := t.intVal(); ok {
		return normConst(n, typ)
	}
	return t
}

func notTerm(a *Term, typ types.Type) *Term {
	if n, ok := a.intVal(); ok {
		return normConst(^n, typ)
	}
	if a.op == "not" {
		return a.args[0]
	}
	if !isUnsigned(typ) {
		// ^x == -1 - x
		return retype(sub(constTerm(constant.MakeInt64(-1), typ), a), typ)
	}
	return mkTerm("not", "", typ, a)
}

func cmpTerms(op token.Token, a, b *Term, typ types.Type) *Node {
	switch {
	case isInt(typ):
		return intCmp(op.String(), a, b)
	case isFloat(typ):
		return fltCmp(op.String(), a, b)
	case isBoolT(typ):
		x, y := asBool(sc(a)), asBool(sc(b))
		if op == token.NEQ {
			return xor(x, y)
		}
		return not(xor(x, y))
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Node
		if isString(typ) {
			if s, ok := b.strVal(); ok && s == "" {
				r = intCmp("==", lenTerm(a), intTerm(0))
			} else if s, ok := a.strVal(); ok && s == "" {
				r = intCmp("==", lenTerm(b), intTerm(0))
			}
		}
		if r == nil {
			r = genEq(a, b)
		}
		if op == token.NEQ {
			return not(r)
		}
		return r
	}
	if isString(typ) {
		return bd.atom(mkTerm("scmp", op.String(), types.Typ[types.Bool], a, b))
	}
	panic(undecided(fmt.Sprintf("comparison %s of %s", op, typ)))
}

// convTerm: conversions. Widening integer conversions and float32->float64
// keep the value and so keep the name.
func convTerm(t *Term, from, to types.Type) *Term {
	switch {
	case isInt(from) && isInt(to):
		if n, ok := t.intVal(); ok {
			return normConst(n, to)
		}
		fb, tb := intBits(from), intBits(to)
		fu, tu := isUnsigned(from), isUnsigned(to)
		if fu == tu && fb == tb {
			return t
		}
		if (fu == tu && tb > fb) || (fu && !tu && tb > fb) {
			return uatom(t)
		}
		if t.op == "conv" && t.aux == basic(to).Name() {
			return t
		}
		if !tu && fu && tb == fb && t.op == "conv" && isInt(t.args[0].typ) && !isUnsigned(t.args[0].typ) && intBits(t.args[0].typ) == tb {
			return t.args[0]
		}
		// a narrowing of a value whose bits all fit keeps the value
		if m, ok := bitsPossible(t); ok {
			fits := true
			lim := tb
			if !tu {
				lim--
			}
			for b := range m {
				if b >= lim {
					fits = false
				}
			}
			if fits && t.op != "conv" {
				return t
			}
		}
		return mkTerm("conv", basic(to).Name(), to, t)
	case isInt(from) && isFloat(to):
		if n, ok := t.intVal(); ok {
			return constTerm(constant.MakeInt64(n), to)
		}
		return mkTerm("conv", basic(to).Name(), to, uatom(t))
	case isFloat(from) && isFloat(to):
		if fwidth(from) == fwidth(to) || fwidth(to) == "64" {
			return t
		}
		return mkTerm("conv", "float32", to, t)
	case isFloat(from) && isInt(to):
		if f, ok := t.floatVal(); ok && f == math.Trunc(f) && math.Abs(f) < 1e15 {
			return normConst(int64(f), to)
		}
		if r := ceilIdiom(t); r != nil {
			return r
		}
		return mkTerm("conv", basic(to).Name(), to, t)
	case isString(to) && isString(from):
		return t
	}
	return mkTerm("conv", types.TypeString(to.Underlying(), nil), to, t)
}

// int(math.Ceil(float64(n)/c)) is the integer ceiling division.
func ceilIdiom(t *Term) *Term {
	if t.op != "call" || t.aux != "math.Ceil" {
		return nil
	}
	d := t.args[0]
	if d.op != "fdiv" || d.args[0].op != "conv" || !isInt(d.args[0].args[0].typ) {
		return nil
	}
	var n int64
	if f, ok := d.args[1].floatVal(); ok && f == math.Trunc(f) && f >= 1 && f < 1e9 {
		n = int64(f)
	} else {
		return nil
	}
	num := d.args[0].args[0]
	return divTerm(add(num, intTerm(n-1)), intTerm(n), types.Typ[types.Int])
}

func lenTerm(t *Term) *Term {
	I := types.Typ[types.Int]
	switch t.op {
	case "nil":
		return intTerm(0)
	case "const":
		if s, ok := t.strVal(); ok {
			return intTerm(int64(len(s)))
		}
	case "slice":
		return sub(t.args[2], t.args[1])
	case "make":
		return t.args[0]
	case "append":
		return add(lenTerm(t.args[0]), intTerm(int64(len(t.args)-1)))
	case "appendall":
		return add(lenTerm(t.args[0]), lenTerm(t.args[1]))
	case "arrayptr":
		return t.args[1]
	}
	return mkTerm("len", "", I, t)
}

// sliceTerm: x[l:h] for slices, strings and array pointers.
func sliceTerm(x, l, h *Term, typ types.Type) *Term {
	for x.op == "slice" {
		l, h = add(x.args[1], l), add(x.args[1], h)
		x = x.args[0]
	}
	if n, ok := l.intVal(); ok && n == 0 && h == lenTerm(x) && x.op != "alloc" {
		return x
	}
	return mkTerm("slice", "", typ, x, l, h)
}

// indexAddr: address of x[i].
func indexAddr(x, i *Term, elem types.Type) *Term {
	for x.op == "slice" {
		i = add(x.args[1], i)
		x = x.args[0]
	}
	return mkTerm("index", "", types.NewPointer(elem), x, i)
}

// partAddr: where a field of a struct is. A struct embedded in another (without
// fields of the same name) has the address of the one around it, so that a
// field is found under one name wherever it is declared.
func partAddr(x *Term, st *types.Struct, f *types.Var) *Term {
	if embedded(st, f) {
		return x
	}
	return fieldAddr(x, f.Name(), f.Type())
}

func embedded(st *types.Struct, f *types.Var) bool {
	if !f.Embedded() || structOf(f.Type()) == nil {
		return false
	}
	names := map[string]int{}
	for _, q := range flatFields(st, 0) {
		names[q.Name()]++
	}
	for _, q := range flatFields(structOf(f.Type()), 0) {
		if names[q.Name()] > 1 {
			return false
		}
	}
	return true
}

// flatFields: the fields of a struct, those of embedded structs in their place.
func flatFields(st *types.Struct, depth int) (out []*types.Var) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if in := structOf(f.Type()); f.Embedded() && in != nil && depth < 4 {
			out = append(out, flatFields(in, depth+1)...)
		} else {
			out = append(out, f)
		}
	}
	return
}

// fieldsOf: the fields of a struct or a pointer to one; fields of embedded
// structs count as its own.
func fieldsOf(t types.Type) (out []*types.Var) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if f := st.Field(i); embedded(st, f) {
			out = append(out, fieldsOf(f.Type())...)
		} else {
			out = append(out, f)
		}
	}
	return
}

func fieldAddr(x *Term, name string, ft types.Type) *Term {
	return mkTerm("field", name, types.NewPointer(ft), x)
}

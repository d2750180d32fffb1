package main

// Terms: hash-consed canonical names for the values a program computes
// (value numbering). Integer terms are kept in polynomial normal form so that
// i*G+k, k+G*i and (i+1)*c-c+... are the same term however they are spelled.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Mono struct {
	c  int64
	fs []*Term // sorted factors; empty = constant monomial
}

type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	cv   constant.Value // op "const"
	poly []Mono         // op "poly"
	obj  interface{}    // payload (closure fn, loop info, boxed value)
}

type undecided string

func (u undecided) Error() string { return "undecided: " + string(u) }

var terms = map[string]*Term{}
var termList []*Term

func mkTerm(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := terms[k]; ok {
		if op != "alloc" && (op != "sym" || basic(t.typ) == nil || basic(typ) == nil) || t.typ == typ || t.typ == nil || typ == nil || types.Identical(t.typ, typ) {
			return t
		}
		// the same place in another function
		k += "|" + types.TypeString(typ, nil)
		if t, ok := terms[k]; ok {
			return t
		}
	}
	t := &Term{id: len(termList), op: op, aux: aux, args: args, typ: typ}
	terms[k] = t
	termList = append(termList, t)
	return t
}

var gensym = 0

func fresh(op, aux string, typ types.Type, args ...*Term) *Term {
	gensym++
	return mkTerm(op, fmt.Sprintf("%s#%d", aux, gensym), typ, args...)
}

func basic(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}
func isInt(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func intBits(t types.Type) int {
	b := basic(t)
	if b == nil {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// constTerm: integer constants share one name regardless of their Go type;
// other constants are tagged by class.
func constTerm(v constant.Value, typ types.Type) *Term {
	if isFloat(typ) {
		f := constant.ToFloat(v)
		b := basic(typ)
		key := f.ExactString()
		if b.Kind() == types.Float64 {
			x, _ := constant.Float64Val(f)
			key = fmt.Sprintf("%x", x)
			f = constant.MakeFloat64(x)
		} else if b.Kind() == types.Float32 {
			x, _ := constant.Float32Val(f)
			key = fmt.Sprintf("%x", x)
			f = constant.MakeFloat64(float64(x))
		}
		t := mkTerm("const", "f:"+key, typ)
		t.cv = f
		return t
	}
	if isInt(typ) || v.Kind() == constant.Int {
		v = constant.ToInt(v)
		t := mkTerm("const", "i:"+v.ExactString(), typ)
		t.cv = v
		return t
	}
	t := mkTerm("const", "s:"+v.ExactString(), typ)
	t.cv = v
	return t
}

func intTerm(n int64) *Term { return constTerm(constant.MakeInt64(n), types.Typ[types.Int]) }
func strTerm(s string) *Term {
	return constTerm(constant.MakeString(s), types.Typ[types.String])
}
func floatTerm(f float64) *Term {
	return constTerm(constant.MakeFloat64(f), types.Typ[types.Float64])
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t != nil && t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) floatVal() (float64, bool) {
	if t.op == "const" && (t.cv.Kind() == constant.Float || t.cv.Kind() == constant.Int) {
		f, _ := constant.Float64Val(constant.ToFloat(t.cv))
		return f, true
	}
	return 0, false
}

// ---- polynomials -----------------------------------------------------------

func polyOf(t *Term) []Mono {
	if t.op == "poly" {
		return t.poly
	}
	if n, ok := t.intVal(); ok {
		if n == 0 {
			return nil
		}
		return []Mono{{c: n}}
	}
	return []Mono{{c: 1, fs: []*Term{t}}}
}

func monoKey(m Mono) string {
	var sb strings.Builder
	for _, f := range m.fs {
		fmt.Fprintf(&sb, "%d.", f.id)
	}
	return sb.String()
}

func polyNorm(ms []Mono) []Mono {
	acc := map[string]*Mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m)
		if e, ok := acc[k]; ok {
			e.c += m.c
		} else {
			mm := m
			acc[k] = &mm
			keys = append(keys, k)
		}
	}
	var out []Mono
	for _, k := range keys {
		if acc[k].c != 0 {
			out = append(out, *acc[k])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if len(a.fs) != len(b.fs) {
			return len(a.fs) > len(b.fs)
		}
		for x := range a.fs {
			if a.fs[x].id != b.fs[x].id {
				return a.fs[x].id < b.fs[x].id
			}
		}
		return false
	})
	return out
}

func polyAdd(a, b []Mono) []Mono { return polyNorm(append(append([]Mono{}, a...), b...)) }
func polyScale(a []Mono, c int64) []Mono {
	var o []Mono
	for _, m := range a {
		o = append(o, Mono{m.c * c, m.fs})
	}
	return polyNorm(o)
}
func polyMul(a, b []Mono) []Mono {
	var o []Mono
	for _, x := range a {
		for _, y := range b {
			fs := append(append([]*Term{}, x.fs...), y.fs...)
			sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
			o = append(o, Mono{x.c * y.c, fs})
		}
	}
	return polyNorm(o)
}

func polyTerm(ms []Mono, typ types.Type) *Term {
	if len(ms) == 0 {
		return constTerm(constant.MakeInt64(0), typ)
	}
	if len(ms) == 1 {
		if len(ms[0].fs) == 0 {
			return constTerm(constant.MakeInt64(ms[0].c), typ)
		}
		if ms[0].c == 1 && len(ms[0].fs) == 1 {
			return ms[0].fs[0]
		}
	}
	tag := ""
	if isUnsigned(typ) {
		tag = fmt.Sprintf("u%d", intBits(typ))
	}
	var sb strings.Builder
	sb.WriteString(tag)
	for _, m := range ms {
		fmt.Fprintf(&sb, ";%d*%s", m.c, monoKey(m))
	}
	t := mkTerm("poly", sb.String(), typ)
	t.poly = ms
	return t
}

func add(a, b *Term) *Term { return polyTerm(polyAdd(polyOf(a), polyOf(b)), pickT(a, b)) }
func sub(a, b *Term) *Term {
	return polyTerm(polyAdd(polyOf(a), polyScale(polyOf(b), -1)), pickT(a, b))
}
func mul(a, b *Term) *Term { return polyTerm(polyMul(polyOf(a), polyOf(b)), pickT(a, b)) }
func pickT(a, b *Term) types.Type {
	if a.typ != nil && isInt(a.typ) && !a.isConst() {
		return a.typ
	}
	if b.typ != nil && isInt(b.typ) {
		return b.typ
	}
	return types.Typ[types.Int]
}

// coefficient of the linear factor x, and the rest (false when x occurs
// non-linearly or inside another factor).
func linearIn(t *Term, x *Term) (coef, rest *Term, ok bool) {
	var cm, rm []Mono
	for _, m := range polyOf(t) {
		n := 0
		var others []*Term
		for _, f := range m.fs {
			if f == x {
				n++
			} else {
				if occurs(f, x) {
					return nil, nil, false
				}
				others = append(others, f)
			}
		}
		switch n {
		case 0:
			rm = append(rm, m)
		case 1:
			cm = append(cm, Mono{m.c, others})
		default:
			return nil, nil, false
		}
	}
	return polyTerm(polyNorm(cm), types.Typ[types.Int]), polyTerm(polyNorm(rm), types.Typ[types.Int]), true
}

func occurs(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, f := range m.fs {
			if occurs(f, x) {
				return true
			}
		}
	}
	return false
}

func findSub(t *Term, pred func(*Term) bool) *Term {
	seen := map[int]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if pred(t) {
			return t
		}
		for _, a := range t.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		for _, m := range t.poly {
			for _, f := range m.fs {
				if r := rec(f); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return rec(t)
}

// ---- printing ---------------------------------------------------------------

func (t *Term) String() string { return tstr(t, 6) }

func tstr(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	switch t.op {
	case "const":
		if f, ok := t.cv, t.cv.Kind() == constant.Float; ok {
			x, _ := constant.Float64Val(f)
			return fmt.Sprint(x)
		}
		return t.cv.ExactString()
	case "poly":
		var ps []string
		for _, m := range t.poly {
			var fs []string
			if m.c != 1 || len(m.fs) == 0 {
				fs = append(fs, fmt.Sprint(m.c))
			}
			for _, f := range m.fs {
				fs = append(fs, tstr(f, d-1))
			}
			ps = append(ps, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case "load":
		return "*" + tstr(t.args[0], d-1) + t.aux
	case "field":
		return tstr(t.args[0], d-1) + "->" + t.aux
	case "fieldof":
		return tstr(t.args[0], d-1) + "." + t.aux
	case "index":
		return "&" + tstr(t.args[0], d-1) + "[" + tstr(t.args[1], d-1) + "]"
	case "sym":
		return t.aux
	}
	var as []string
	for _, a := range t.args {
		as = append(as, tstr(a, d-1))
	}
	s := t.op
	if t.aux != "" {
		s += ":" + t.aux
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

func bstr(n *Node) string {
	if n == bd.T {
		return "true"
	}
	if n == bd.F {
		return "false"
	}
	var cubes []string
	var lits []string
	var rec func(n *Node)
	rec = func(n *Node) {
		if len(cubes) > 12 || n == bd.F {
			return
		}
		if n == bd.T {
			cubes = append(cubes, strings.Join(lits, " & "))
			return
		}
		a := bd.vars[n.v].String()
		lits = append(lits, a)
		rec(n.hi)
		lits[len(lits)-1] = "!" + a
		rec(n.lo)
		lits = lits[:len(lits)-1]
	}
	rec(n)
	return strings.Join(cubes, "  ||  ")
}

func litsStr(ls []Lit) string {
	var s []string
	for _, l := range ls {
		x := l.t.String()
		if !l.pos {
			x = "!" + x
		}
		s = append(s, x)
	}
	return strings.Join(s, " & ")
}

// ---- atoms -------------------------------------------------------------------

func bconst(b bool) *Node {
	if b {
		return bd.T
	}
	return bd.F
}

// uatom hides a wrapping unsigned sum behind an opaque name before it takes
// part in a comparison over the mathematical integers.
func uatom(t *Term) *Term {
	if t.op == "poly" && isUnsigned(t.typ) {
		return mkTerm("wrap", "", t.typ, t)
	}
	return t
}

// le0 is the atom p <= 0 in canonical form.
func le0(p []Mono) *Node {
	if len(p) == 0 {
		return bd.T
	}
	var cst int64
	var rest []Mono
	for _, m := range p {
		if len(m.fs) == 0 {
			cst = m.c
		} else {
			rest = append(rest, m)
		}
	}
	if len(rest) == 0 {
		return bconst(cst <= 0)
	}
	g := int64(0)
	for _, m := range rest {
		g = gcd(g, abs64(m.c))
	}
	neg := rest[0].c < 0
	if neg {
		// p <= 0  <=>  not(-p + 1 <= 0)
		return not(le0(polyAdd(polyScale(p, -1), []Mono{{c: 1}})))
	}
	if g > 1 {
		var r2 []Mono
		for _, m := range rest {
			r2 = append(r2, Mono{m.c / g, m.fs})
		}
		// g*r + c <= 0  <=>  r <= floor(-c/g)
		q := floorDiv(-cst, g)
		if q != 0 {
			r2 = append(r2, Mono{c: -q})
		}
		return le0(polyNorm(r2))
	}
	// bound from sign knowledge
	if len(rest) == 1 && len(rest[0].fs) == 1 && nonneg(rest[0].fs[0]) {
		if cst > 0 {
			return bd.F // x + c <= 0 with x >= 0, c > 0
		}
	}
	if cst > 0 {
		all := true
		for _, m := range rest {
			if m.c < 0 {
				all = false
			}
			for _, f := range m.fs {
				if !nonneg(f) {
					all = false
				}
			}
		}
		if all {
			return bd.F
		}
	}
	if len(rest) == 1 && rest[0].c == 1 && len(rest[0].fs) == 1 && rest[0].fs[0].op == "rem" {
		// x % c <= 0 with x >= 0 is x % c == 0
		if cst == 0 && nonneg(rest[0].fs[0]) {
			return eq0(p)
		}
	}
	if cst == 0 && len(rest) == 1 && len(rest[0].fs) == 1 && nonneg(rest[0].fs[0]) {
		return eq0(p)
	}
	return bd.atom(mkTerm("le0", "", types.Typ[types.Bool], polyTerm(p, types.Typ[types.Int])))
}

func eq0(p []Mono) *Node {
	if len(p) == 0 {
		return bd.T
	}
	if len(p) == 1 && len(p[0].fs) == 0 {
		return bconst(p[0].c == 0)
	}
	if len(p) == 1 && len(p[0].fs) > 1 { // a product is 0 when a factor is
		ints := true
		for _, f := range p[0].fs {
			if b := basic(f.typ); b == nil || b.Kind() != types.Int {
				ints = false
			}
		}
		if ints {
			r := bd.F
			for _, f := range p[0].fs {
				r = or(r, eq0(polyOf(f)))
			}
			return r
		}
	}
	g := int64(0)
	var cst int64
	for _, m := range p {
		if len(m.fs) == 0 {
			cst = m.c
			continue
		}
		g = gcd(g, abs64(m.c))
	}
	if g > 1 {
		if cst%g != 0 {
			return bd.F
		}
		var r []Mono
		for _, m := range p {
			r = append(r, Mono{m.c / g, m.fs})
		}
		p = r
	}
	if p[0].c < 0 {
		p = polyScale(p, -1)
	}
	if len(p) == 2 && len(p[1].fs) == 0 && p[1].c > 0 && p[0].c == 1 && len(p[0].fs) == 1 && nonneg(p[0].fs[0]) {
		return bd.F
	}
	return bd.atom(mkTerm("eq0", "", types.Typ[types.Bool], polyTerm(p, types.Typ[types.Int])))
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// terms known to be non-negative
func nonneg(t *Term) bool {
	switch t.op {
	case "len", "cap", "iv", "count":
		return true
	case "const":
		n, ok := t.intVal()
		return ok && n >= 0
	}
	if t.typ != nil && isUnsigned(t.typ) {
		return true
	}
	return false
}

// bitOf returns the guard "bit b of integer term t is set".
func bitOf(t *Term, b int) *Node {
	if b < 0 {
		return bd.F
	}
	if t.isConst() && t.cv.Kind() == constant.Int {
		x, ok := new(big.Int).SetString(t.cv.ExactString(), 10)
		if ok {
			if x.Sign() < 0 {
				n, _ := t.intVal()
				return bconst((n>>uint(min(b, 63)))&1 == 1)
			}
			return bconst(x.Bit(b) == 1)
		}
	}
	if isUnsigned(t.typ) && b >= intBits(t.typ) {
		return bd.F
	}
	switch t.op {
	case "and":
		r := bd.T
		for _, a := range t.args {
			r = and(r, bitOf(a, b))
		}
		return r
	case "or":
		r := bd.F
		for _, a := range t.args {
			r = or(r, bitOf(a, b))
		}
		return r
	case "xor":
		r := bd.F
		for _, a := range t.args {
			r = xor(r, bitOf(a, b))
		}
		return r
	case "not":
		return not(bitOf(t.args[0], b))
	case "shr":
		if n, ok := t.args[1].intVal(); ok {
			return bitOf(t.args[0], b+int(n))
		}
	case "shl":
		if n, ok := t.args[1].intVal(); ok {
			return bitOf(t.args[0], b-int(n))
		}
	case "conv":
		src := t.args[0]
		if isInt(src.typ) {
			if b < intBits(src.typ) {
				return bitOf(src, b)
			}
			if isUnsigned(src.typ) {
				return bd.F
			}
		}
	case "gv":
		// guarded choice used inside a bit expression
		v := t.obj.(*Scalar)
		r := bd.F
		for _, a := range v.alts {
			r = or(r, and(a.g, bitOf(a.t, b)))
		}
		return r
	}
	return bd.atom(mkTerm("bit", fmt.Sprint(b), types.Typ[types.Bool], t))
}

// maskWidth: bits that may be non-zero in t; ok=false if unbounded.
func bitsPossible(t *Term) (map[int]bool, bool) {
	if t.isConst() {
		n, ok := t.intVal()
		if !ok || n < 0 {
			return nil, false
		}
		m := map[int]bool{}
		for i := 0; i < 63; i++ {
			if (n>>uint(i))&1 == 1 {
				m[i] = true
			}
		}
		return m, true
	}
	switch t.op {
	case "and":
		for _, a := range t.args {
			if m, ok := bitsPossible(a); ok && len(m) <= 16 {
				for _, o := range t.args {
					if mo, ok := bitsPossible(o); ok {
						for b := range m {
							if !mo[b] {
								delete(m, b)
							}
						}
					}
				}
				return m, true
			}
		}
	case "or":
		u := map[int]bool{}
		for _, a := range t.args {
			m, ok := bitsPossible(a)
			if !ok {
				return nil, false
			}
			for b := range m {
				u[b] = true
			}
		}
		return u, true
	case "shr", "shl":
		n, ok := t.args[1].intVal()
		if !ok {
			return nil, false
		}
		m, ok := bitsPossible(t.args[0])
		if !ok {
			return nil, false
		}
		u := map[int]bool{}
		for b := range m {
			nb := b - int(n)
			if t.op == "shl" {
				nb = b + int(n)
			}
			if nb >= 0 && nb < intBits(t.typ) {
				u[nb] = true
			}
		}
		return u, true
	case "conv":
		if isInt(t.args[0].typ) {
			m, ok := bitsPossible(t.args[0])
			if !ok {
				return nil, false
			}
			u := map[int]bool{}
			for b := range m {
				if b < intBits(t.typ) {
					u[b] = true
				}
			}
			return u, true
		}
	}
	return nil, false
}

// maskedEq: a == const where a has a small set of possible bits.
func maskedEq(a *Term, c int64) (*Node, bool) {
	switch a.op {
	case "and", "or", "shr", "shl", "conv":
	default:
		return nil, false
	}
	m, ok := bitsPossible(a)
	if !ok || len(m) > 16 || c < 0 {
		return nil, false
	}
	r := bd.T
	for b := 0; b < 63; b++ {
		want := (c>>uint(b))&1 == 1
		if m[b] {
			x := bitOf(a, b)
			if !want {
				x = not(x)
			}
			r = and(r, x)
		} else if want {
			return bd.F, true
		}
	}
	return r, true
}

// intCmp builds the guard a OP b for integer terms.
func intCmp(op string, a, b *Term) *Node {
	// masked values against constants become bit tests
	if n, ok := b.intVal(); ok {
		if m, isM := bitsPossible(a); isM && len(m) <= 8 && (a.op == "and" || a.op == "shr" || a.op == "conv" || a.op == "or" || a.op == "shl") {
			r := bd.F
			maxv := int64(1)
			for bit := range m {
				if bit > 20 {
					maxv = 0
				}
			}
			if maxv > 0 {
				var bits []int
				for bit := range m {
					bits = append(bits, bit)
				}
				sort.Ints(bits)
				for s := 0; s < 1<<uint(len(bits)); s++ {
					var v int64
					for j, bit := range bits {
						if s>>uint(j)&1 == 1 {
							v |= 1 << uint(bit)
						}
					}
					var hit bool
					switch op {
					case "==":
						hit = v == n
					case "!=":
						hit = v != n
					case "<":
						hit = v < n
					case "<=":
						hit = v <= n
					case ">":
						hit = v > n
					case ">=":
						hit = v >= n
					}
					if hit {
						e, _ := maskedEq(a, v)
						r = or(r, e)
					}
				}
				return r
			}
			if op == "==" || op == "!=" || (n == 0 && (op == ">" || op == "<=")) {
				e, ok := maskedEq(a, n)
				if ok {
					if op == "!=" || op == ">" {
						return not(e)
					}
					return e
				}
			}
		}
	} else if _, ok := a.intVal(); ok {
		sw := map[string]string{"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
		return intCmp(sw[op], b, a)
	}
	if g := oneBit(op, a, b); g != nil {
		return g
	}
	a, b = uatom(a), uatom(b)
	d := polyAdd(polyOf(a), polyScale(polyOf(b), -1))
	switch op {
	case "==":
		return eq0(d)
	case "!=":
		return not(eq0(d))
	case "<=":
		return le0(d)
	case "<":
		return le0(polyAdd(d, []Mono{{c: 1}}))
	case ">":
		return not(le0(d))
	case ">=":
		return not(le0(polyAdd(d, []Mono{{c: 1}})))
	}
	panic("intCmp " + op)
}

// oneBit: x & (1<<k) compared with 0 or with 1<<k is bit k of x.
func oneBit(op string, a, b *Term) *Node {
	isMask := func(t *Term) bool {
		if t.op != "shl" {
			return false
		}
		n, ok := t.args[0].intVal()
		return ok && n == 1
	}
	if a.op != "and" {
		if b.op == "and" {
			sw := map[string]string{"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
			a, b, op = b, a, sw[op]
		} else {
			return nil
		}
	}
	for i, m := range a.args {
		if !isMask(m) {
			continue
		}
		var rest []*Term
		rest = append(rest, a.args[:i]...)
		rest = append(rest, a.args[i+1:]...)
		x := rest[0]
		if len(rest) > 1 {
			x = bitop("and", a.typ, rest...)
		}
		g := bitOf(shrTerm(x, m.args[1], a.typ), 0)
		if n, ok := b.intVal(); ok && n == 0 {
			switch op {
			case "==":
				return not(g)
			case "!=":
				return g
			case ">":
				if isUnsigned(a.typ) {
					return g
				}
			}
		}
		if b == m {
			switch op {
			case "==":
				return g
			case "!=":
				return not(g)
			}
		}
	}
	return nil
}

func fltCmp(op string, a, b *Term) *Node {
	if x, ok := a.floatVal(); ok {
		if y, ok := b.floatVal(); ok {
			switch op {
			case "==":
				return bconst(x == y)
			case "!=":
				return bconst(x != y)
			case "<":
				return bconst(x < y)
			case "<=":
				return bconst(x <= y)
			case ">":
				return bconst(x > y)
			case ">=":
				return bconst(x >= y)
			}
		}
	}
	at := func(op string, a, b *Term) *Node {
		return bd.atom(mkTerm(op, "", types.Typ[types.Bool], a, b))
	}
	switch op {
	case "<":
		return at("flt", a, b)
	case ">":
		return at("flt", b, a)
	case "<=":
		return at("fle", a, b)
	case ">=":
		return at("fle", b, a)
	case "==", "!=":
		var r *Node
		if a == b {
			r = not(isNaN(a))
		} else {
			if a.id > b.id {
				a, b = b, a
			}
			r = at("feq", a, b)
		}
		if op == "!=" {
			return not(r)
		}
		return r
	}
	panic("fltCmp " + op)
}

func isNaN(a *Term) *Node {
	if _, ok := a.floatVal(); ok {
		return bd.F
	}
	if a.op == "conv" && isInt(a.args[0].typ) {
		return bd.F
	}
	return bd.atom(mkTerm("isnan", "", types.Typ[types.Bool], a))
}

// genEq: equality of non-numeric terms.
func genEq(a, b *Term) *Node {
	if a == b {
		return bd.T
	}
	if a.isConst() && b.isConst() {
		return bd.F
	}
	if b.op == "nil" {
		return isNil(a)
	}
	if a.op == "nil" {
		return isNil(b)
	}
	if a.op == "bytestr" || b.op == "bytestr" {
		// fallthrough to generic
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bd.atom(mkTerm("eq", "", types.Typ[types.Bool], a, b))
}

func isNil(a *Term) *Node {
	switch a.op {
	case "nil":
		return bd.T
	case "errval", "alloc", "iface", "make", "closure", "global", "field", "index", "append", "func", "makemap", "makechan":
		if a.op == "append" {
			break
		}
		return bd.F
	case "gv":
		v := a.obj.(*Scalar)
		r := bd.F
		for _, al := range v.alts {
			r = or(r, and(al.g, isNil(al.t)))
		}
		return r
	}
	if a.op == "load" && a.args[0].op == "global" && a.typ != nil && types.Identical(a.typ, types.Universe.Lookup("error").Type()) {
		return bd.F // package-level sentinel errors (io.EOF)
	}
	return bd.atom(mkTerm("isnil", "", types.Typ[types.Bool], a))
}

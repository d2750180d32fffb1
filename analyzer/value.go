package main

// Abstract values: guarded terms. A Scalar is a set of alternatives, each a
// canonical term with the guard under which the program value equals it; a
// boolean is a guard itself; structs and small arrays are kept field by field.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

type Val interface{}

type Alt struct {
	g *Node
	t *Term
}
type Scalar struct{ alts []Alt }
type BoolVal struct{ n *Node }
type StructVal struct {
	typ types.Type
	f   []Val
}
type TupleVal struct{ v []Val }

const maxAlts = 160
const maxArray = 64

var nilTerm *Term

func init() { nilTerm = mkTerm("nil", "", types.Typ[types.UntypedNil]) }

func sc(t *Term) Val { return &Scalar{[]Alt{{bd.T, t}}} }

func boolTerm(n *Node) *Term {
	t := mkTerm("boolv", fmt.Sprint(n.id), types.Typ[types.Bool])
	t.obj = n
	return t
}

// toTerm names a value with a single term.
func toTerm(v Val) *Term {
	switch x := v.(type) {
	case *Scalar:
		if len(x.alts) == 1 {
			return x.alts[0].t
		}
		if len(x.alts) == 0 {
			return mkTerm("novalue", "", nil)
		}
		var sb strings.Builder
		var args []*Term
		for _, a := range x.alts {
			fmt.Fprintf(&sb, "%d,", a.g.id)
			args = append(args, a.t)
		}
		t := mkTerm("gv", sb.String(), x.alts[0].t.typ, args...)
		t.obj = x
		return t
	case BoolVal:
		return boolTerm(x.n)
	case *StructVal:
		var args []*Term
		for _, f := range x.f {
			args = append(args, toTerm(f))
		}
		t := mkTerm("struct", types.TypeString(x.typ, nil), x.typ, args...)
		t.obj = x
		return t
	case *TupleVal:
		var args []*Term
		for _, f := range x.v {
			args = append(args, toTerm(f))
		}
		t := mkTerm("tuple", "", nil, args...)
		t.obj = x
		return t
	case nil:
		return mkTerm("void", "", nil)
	}
	panic(fmt.Sprintf("toTerm %T", v))
}

// alts views any value as guarded terms.
func altsOf(v Val) []Alt {
	switch x := v.(type) {
	case *Scalar:
		var out []Alt
		for _, a := range x.alts {
			if a.t.op == "gv" {
				for _, b := range a.t.obj.(*Scalar).alts {
					if g := and(a.g, b.g); g != bd.F {
						out = append(out, Alt{g, b.t})
					}
				}
			} else {
				out = append(out, a)
			}
		}
		return out
	default:
		return []Alt{{bd.T, toTerm(v)}}
	}
}

func asBool(v Val) *Node {
	switch x := v.(type) {
	case BoolVal:
		return x.n
	case *Scalar:
		r := bd.F
		for _, a := range x.alts {
			if a.t.op == "boolv" {
				r = or(r, and(a.g, a.t.obj.(*Node)))
			} else if a.t.isConst() && a.t.cv.Kind() == constant.Bool {
				if constant.BoolVal(a.t.cv) {
					r = or(r, a.g)
				}
			} else {
				r = or(r, and(a.g, bd.atom(a.t)))
			}
		}
		return r
	}
	panic(fmt.Sprintf("asBool %T", v))
}

func valEq(a, b Val) bool {
	switch x := a.(type) {
	case *Scalar:
		y, ok := b.(*Scalar)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i] != y.alts[i] {
				return false
			}
		}
		return true
	case BoolVal:
		y, ok := b.(BoolVal)
		return ok && x.n == y.n
	case *StructVal:
		y, ok := b.(*StructVal)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !valEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *TupleVal:
		y, ok := b.(*TupleVal)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !valEq(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

// mergeVals joins values that hold under the given guards; the result is only
// meaningful under their disjunction, which is used to simplify guards.
func mergeVals(gs []*Node, vs []Val) Val {
	care := or(gs...)
	return mergeCare(gs, vs, care)
}

func mergeCare(gs []*Node, vs []Val, care *Node) Val {
	if len(vs) == 0 {
		return nil
	}
	same := true
	for i := 1; i < len(vs); i++ {
		if !valEq(vs[0], vs[i]) {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	switch x := vs[0].(type) {
	case BoolVal:
		r := bd.F
		for i := range vs {
			r = or(r, and(gs[i], asBool(vs[i])))
		}
		return BoolVal{simplify(r, care)}
	case *StructVal:
		out := &StructVal{typ: x.typ}
		for i := range x.f {
			var fs []Val
			for _, v := range vs {
				fs = append(fs, v.(*StructVal).f[i])
			}
			out.f = append(out.f, mergeCare(gs, fs, care))
		}
		return out
	case *TupleVal:
		out := &TupleVal{}
		for i := range x.v {
			var fs []Val
			for _, v := range vs {
				fs = append(fs, v.(*TupleVal).v[i])
			}
			out.v = append(out.v, mergeCare(gs, fs, care))
		}
		return out
	}
	// scalars
	idx := map[*Term]int{}
	var alts []Alt
	for i, v := range vs {
		for _, a := range altsOf(v) {
			g := and(gs[i], a.g)
			if g == bd.F {
				continue
			}
			if j, ok := idx[a.t]; ok {
				alts[j].g = or(alts[j].g, g)
			} else {
				idx[a.t] = len(alts)
				alts = append(alts, Alt{g, a.t})
			}
		}
	}
	if len(alts) == 0 {
		return vs[0]
	}
	if len(alts) > maxAlts {
		panic(undecided(fmt.Sprintf("value with more than %d alternatives", maxAlts)))
	}
	if len(alts) == 1 {
		return sc(alts[0].t)
	}
	sort.Slice(alts, func(i, j int) bool { return alts[i].t.id < alts[j].t.id })
	for i := range alts {
		alts[i].g = simplify(alts[i].g, care)
	}
	return &Scalar{alts}
}

// lift applies f to every feasible combination of alternatives.
func lift(vals []Val, f func(ts []*Term) Val) Val {
	lists := make([][]Alt, len(vals))
	n := 1
	for i, v := range vals {
		lists[i] = altsOf(v)
		n *= len(lists[i])
	}
	if n == 1 {
		ts := make([]*Term, len(vals))
		for i := range lists {
			ts[i] = lists[i][0].t
		}
		return f(ts)
	}
	if n == 0 {
		return sc(mkTerm("novalue", "", nil))
	}
	if n > 4096 {
		panic(undecided("too many value combinations"))
	}
	var gs []*Node
	var rs []Val
	ts := make([]*Term, len(vals))
	var rec func(i int, g *Node)
	rec = func(i int, g *Node) {
		if g == bd.F {
			return
		}
		if i == len(lists) {
			gs = append(gs, g)
			rs = append(rs, f(append([]*Term{}, ts...)))
			return
		}
		for _, a := range lists[i] {
			ts[i] = a.t
			rec(i+1, and(g, a.g))
		}
	}
	rec(0, bd.T)
	if len(rs) == 0 {
		return sc(mkTerm("novalue", "", nil))
	}
	return mergeCare(gs, rs, bd.T)
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}
func arrayOf(t types.Type) *types.Array {
	a, _ := t.Underlying().(*types.Array)
	if a != nil && a.Len() > maxArray {
		return nil
	}
	return a
}

func zeroVal(t types.Type) Val {
	if s := structOf(t); s != nil {
		v := &StructVal{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, zeroVal(s.Field(i).Type()))
		}
		return v
	}
	if a := arrayOf(t); a != nil {
		v := &StructVal{typ: t}
		for i := int64(0); i < a.Len(); i++ {
			v.f = append(v.f, zeroVal(a.Elem()))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		v := &TupleVal{}
		for i := 0; i < tp.Len(); i++ {
			v.v = append(v.v, zeroVal(tp.At(i).Type()))
		}
		return v
	}
	if b := basic(t); b != nil {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolVal{bd.F}
		case b.Info()&types.IsInteger != 0:
			return sc(constTerm(constant.MakeInt64(0), t))
		case b.Info()&types.IsFloat != 0:
			return sc(constTerm(constant.MakeFloat64(0), t))
		case b.Info()&types.IsString != 0:
			return sc(strTerm(""))
		case b.Kind() == types.UntypedNil:
			return sc(nilTerm)
		}
		return sc(mkTerm("zero", b.Name(), t))
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return sc(mkTerm("zeroarr", types.TypeString(t, nil), t))
	}
	return sc(nilTerm)
}

// symVal: the symbolic value named t.
func symVal(t *Term, typ types.Type) Val {
	if s := structOf(typ); s != nil {
		v := &StructVal{typ: typ}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, symVal(mkTerm("fieldof", s.Field(i).Name(), s.Field(i).Type(), t), s.Field(i).Type()))
		}
		return v
	}
	if a := arrayOf(typ); a != nil {
		v := &StructVal{typ: typ}
		for i := int64(0); i < a.Len(); i++ {
			v.f = append(v.f, symVal(mkTerm("fieldof", fmt.Sprintf("[%d]", i), a.Elem(), t), a.Elem()))
		}
		return v
	}
	if tp, ok := typ.(*types.Tuple); ok {
		v := &TupleVal{}
		for i := 0; i < tp.Len(); i++ {
			v.v = append(v.v, symVal(mkTerm("res", fmt.Sprint(i), tp.At(i).Type(), t), tp.At(i).Type()))
		}
		return v
	}
	if isBoolT(typ) {
		return BoolVal{bd.atom(t)}
	}
	return sc(t)
}

func vstr(v Val) string {
	switch x := v.(type) {
	case *Scalar:
		if len(x.alts) == 1 {
			return x.alts[0].t.String()
		}
		var s []string
		for _, a := range x.alts {
			s = append(s, fmt.Sprintf("[%s => %s]", bstr(a.g), a.t))
		}
		return "{" + strings.Join(s, " ") + "}"
	case BoolVal:
		return "<" + bstr(x.n) + ">"
	case *StructVal:
		var s []string
		st := structOf(x.typ)
		for i, f := range x.f {
			n := fmt.Sprint(i)
			if st != nil {
				n = st.Field(i).Name()
			} else if i > 3 {
				s = append(s, "..")
				break
			}
			s = append(s, n+": "+vstr(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *TupleVal:
		var s []string
		for _, f := range x.v {
			s = append(s, vstr(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case nil:
		return "void"
	}
	return fmt.Sprintf("%T", v)
}

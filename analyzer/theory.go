package main

// Consistency of a conjunction of atoms: a rational linear-arithmetic
// emptiness test (Fourier-Motzkin on the polynomial monomials), equality of
// strings with constants, NaN/ordering facts of floats, dynamic types.

import (
	"go/constant"
	"math/big"
	"sort"
	"strings"
)

type linIneq struct {
	co map[string]*big.Rat // sum co*m + c <= 0
	c  *big.Rat
}

func consistent(lits []Lit) bool {
	var ineqs []linIneq
	var eqs []linIneq
	type seq struct {
		c   *Term
		pos bool
	}
	strEq := map[*Term][]seq{}
	prefix := map[*Term][]seq{}
	isT := map[*Term]map[string]bool{}
	nilT := map[*Term]bool{}
	nanPos := map[*Term]bool{}
	nanNeg := map[*Term]bool{}
	type fo struct {
		a, b   *Term
		strict bool
	}
	var ford []fo
	monos := map[string]Mono{}
	toIneq := func(p []Mono) linIneq {
		q := linIneq{co: map[string]*big.Rat{}, c: new(big.Rat)}
		for _, m := range p {
			if len(m.fs) == 0 {
				q.c = big.NewRat(m.c, 1)
			} else {
				k := monoKey(m)
				monos[k] = Mono{1, m.fs}
				q.co[k] = big.NewRat(m.c, 1)
			}
		}
		return q
	}
	type neqT struct{ p []Mono }
	var neqs []neqT
	for _, l := range lits {
		t := l.t
		switch t.op {
		case "le0":
			p := polyOf(t.args[0])
			if !l.pos {
				p = polyAdd(polyScale(p, -1), []Mono{{c: 1}})
			}
			ineqs = append(ineqs, toIneq(p))
		case "eq0":
			p := polyOf(t.args[0])
			if l.pos {
				eqs = append(eqs, toIneq(p))
			} else {
				neqs = append(neqs, neqT{p})
			}
		case "eq":
			a, b := t.args[0], t.args[1]
			if b.isConst() {
				a, b = b, a
			}
			if a.isConst() {
				strEq[b] = append(strEq[b], seq{a, l.pos})
			}
		case "hasprefix":
			if t.args[1].isConst() {
				prefix[t.args[0]] = append(prefix[t.args[0]], seq{t.args[1], l.pos})
			}
		case "is":
			if l.pos {
				m := isT[t.args[0]]
				if m == nil {
					m = map[string]bool{}
					isT[t.args[0]] = m
				}
				m[t.aux] = true
			}
		case "isnil":
			if l.pos {
				nilT[t.args[0]] = true
			}
		case "isnan":
			if l.pos {
				nanPos[t.args[0]] = true
			} else {
				nanNeg[t.args[0]] = true
			}
		case "feq":
			if l.pos {
				ford = append(ford, fo{t.args[0], t.args[1], false}, fo{t.args[1], t.args[0], false})
			}
		case "flt":
			if l.pos {
				ford = append(ford, fo{t.args[0], t.args[1], true})
			}
		case "fle":
			if l.pos {
				ford = append(ford, fo{t.args[0], t.args[1], false})
			}
		}
	}
	for _, m := range isT {
		if len(m) > 1 {
			return false
		}
	}
	for x := range nilT {
		if len(isT[x]) > 0 {
			return false
		}
	}
	for x, es := range strEq {
		var pos *Term
		for _, e := range es {
			if e.pos {
				if pos != nil && pos != e.c {
					return false
				}
				pos = e.c
			}
		}
		for _, e := range es {
			if !e.pos && e.c == pos {
				return false
			}
		}
		if pos != nil && pos.cv.Kind() == constant.String {
			s := constant.StringVal(pos.cv)
			for _, p := range prefix[x] {
				ps, _ := p.c.strVal()
				if strings.HasPrefix(s, ps) != p.pos {
					return false
				}
			}
		}
	}
	// floats: NaN takes part in no ordering; positive order facts must be acyclic
	for _, o := range ford {
		if nanPos[o.a] || nanPos[o.b] {
			return false
		}
	}
	if len(ford) > 0 || len(nanNeg) > 0 {
		// negative facts are usable when both operands are known not to be NaN
		notNaN := func(t *Term) bool {
			if t.isConst() || nanNeg[t] {
				return true
			}
			for _, o := range ford {
				if o.a == t || o.b == t {
					return true
				}
			}
			return false
		}
		for _, l := range lits {
			if l.pos {
				continue
			}
			switch l.t.op {
			case "flt":
				if notNaN(l.t.args[0]) && notNaN(l.t.args[1]) {
					ford = append(ford, fo{l.t.args[1], l.t.args[0], false})
				}
			case "fle":
				if notNaN(l.t.args[0]) && notNaN(l.t.args[1]) {
					ford = append(ford, fo{l.t.args[1], l.t.args[0], true})
				}
			}
		}
		if !floatOrderOK(func(yield func(a, b *Term, strict bool)) {
			for _, o := range ford {
				yield(o.a, o.b, o.strict)
			}
		}) {
			return false
		}
	}
	if len(ineqs)+len(eqs) == 0 {
		return true
	}
	if !linFeasible(ineqs, eqs, monos) {
		return false
	}
	// a disequality p != 0 contradicts the rest if both p<0 and p>0 do
	for _, n := range neqs {
		lo := toIneq(polyAdd(n.p, []Mono{{c: 1}}))
		hi := toIneq(polyAdd(polyScale(n.p, -1), []Mono{{c: 1}}))
		if !linFeasible(append(append([]linIneq{}, ineqs...), lo), eqs, monos) &&
			!linFeasible(append(append([]linIneq{}, ineqs...), hi), eqs, monos) {
			return false
		}
	}
	return true
}

func floatOrderOK(each func(func(a, b *Term, strict bool))) bool {
	idx := map[*Term]int{}
	var ts []*Term
	id := func(t *Term) int {
		if i, ok := idx[t]; ok {
			return i
		}
		idx[t] = len(ts)
		ts = append(ts, t)
		return len(ts) - 1
	}
	type e struct {
		a, b   int
		strict bool
	}
	var es []e
	each(func(a, b *Term, s bool) { es = append(es, e{id(a), id(b), s}) })
	for i, a := range ts {
		for j, b := range ts {
			x, ok1 := a.floatVal()
			y, ok2 := b.floatVal()
			if ok1 && ok2 && i != j && x < y {
				es = append(es, e{i, j, true})
			}
		}
	}
	n := len(ts)
	// 0 none, 1 <=, 2 <
	r := make([][]int, n)
	for i := range r {
		r[i] = make([]int, n)
	}
	for _, x := range es {
		v := 1
		if x.strict {
			v = 2
		}
		if r[x.a][x.b] < v {
			r[x.a][x.b] = v
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if r[i][k] > 0 && r[k][j] > 0 {
					v := r[i][k]
					if r[k][j] > v {
						v = r[k][j]
					}
					if r[i][j] < v {
						r[i][j] = v
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if r[i][i] == 2 {
			return false
		}
	}
	return true
}

func linFeasible(ineqs, eqs []linIneq, monos map[string]Mono) bool {
	return linFeasibleD(ineqs, eqs, monos, 0)
}

func linFeasibleD(ineqs, eqs []linIneq, monos map[string]Mono, depth int) bool {
	var sys []linIneq
	sys = append(sys, ineqs...)
	for _, e := range eqs {
		neg := linIneq{co: map[string]*big.Rat{}, c: new(big.Rat).Neg(e.c)}
		for k, v := range e.co {
			neg.co[k] = new(big.Rat).Neg(v)
		}
		sys = append(sys, e, neg)
	}
	vars := map[string]bool{}
	for _, s := range sys {
		for k := range s.co {
			vars[k] = true
		}
	}
	// axioms of the operations that occur
	lin := func(p []Mono) linIneq {
		q := linIneq{co: map[string]*big.Rat{}, c: new(big.Rat)}
		for _, m := range p {
			if len(m.fs) == 0 {
				q.c = big.NewRat(m.c, 1)
			} else {
				k := monoKey(m)
				monos[k] = Mono{1, m.fs}
				vars[k] = true
				q.co[k] = big.NewRat(m.c, 1)
			}
		}
		return q
	}
	if depth == 0 {
		var keys []string
		for k := range vars {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		done := map[*Term]bool{}
		for _, k := range keys {
			for _, f := range monos[k].fs {
				if done[f] {
					continue
				}
				done[f] = true
				switch {
				case f.op == "ext" && (strings.HasPrefix(f.aux, "runtime.GOMAXPROCS") || strings.HasPrefix(f.aux, "runtime.NumCPU")):
					sys = append(sys, lin(polyAdd([]Mono{{c: 1}}, polyScale(polyOf(f), -1))))
				case f.op == "div" || f.op == "rem":
					x, y := f.args[0], f.args[1]
					if isUnsigned(f.typ) && x.op == "poly" {
						continue
					}
					d := mkTerm("div", "", f.typ, x, y)
					r := polyAdd(polyOf(x), polyScale(polyMul(polyOf(y), polyOf(d)), -1)) // x - y*d
					c, isC := y.intVal()
					nnx := nonneg(x) || !linFeasibleD(append(append([]linIneq{}, sys...), lin(polyAdd(polyOf(x), []Mono{{c: 1}}))), nil, monos, 1)
					posy := isC && c > 0 || !isC && !linFeasibleD(append(append([]linIneq{}, sys...), lin(polyOf(y))), nil, monos, 1)
					if !posy {
						continue
					}
					lo := polyScale(r, -1) // -r <= 0
					hi := polyAdd(polyAdd(r, polyScale(polyOf(y), -1)), []Mono{{c: 1}})
					if nnx {
						sys = append(sys, lin(lo), lin(hi), lin(polyScale(polyOf(d), -1)))
					} else {
						sys = append(sys, lin(hi), lin(polyAdd(polyAdd(lo, polyScale(polyOf(y), -1)), []Mono{{c: 1}})))
					}
					if f.op == "rem" {
						e := polyAdd(polyOf(f), polyScale(r, -1))
						sys = append(sys, lin(e), lin(polyScale(e, -1)))
					}
				}
			}
		}
	}
	if depth == 0 {
		sys = append(sys, productFacts(sys, vars, monos)...)
	}
	known := map[*Term]bool{}
	for _, s := range sys {
		if len(s.co) != 1 || s.c.Sign() < 0 {
			continue
		}
		for k, v := range s.co {
			if m := monos[k]; v.Sign() < 0 && len(m.fs) == 1 {
				known[m.fs[0]] = true
			}
		}
	}
	for k := range vars {
		m := monos[k]
		all := len(m.fs) > 0
		for _, f := range m.fs {
			if !nonneg(f) && !known[f] {
				all = false
			}
		}
		if all {
			sys = append(sys, linIneq{co: map[string]*big.Rat{k: big.NewRat(-1, 1)}, c: new(big.Rat)})
		}
	}
	for len(vars) > 0 {
		// eliminate the variable with the fewest products
		best, bestN := "", 1<<30
		for k := range vars {
			p, n := 0, 0
			for _, s := range sys {
				if v, ok := s.co[k]; ok {
					if v.Sign() > 0 {
						p++
					} else if v.Sign() < 0 {
						n++
					}
				}
			}
			if p*n < bestN || (p*n == bestN && k < best) {
				best, bestN = k, p*n
			}
		}
		k := best
		delete(vars, k)
		var pos, neg, rest []linIneq
		for _, s := range sys {
			v, ok := s.co[k]
			switch {
			case !ok || v.Sign() == 0:
				rest = append(rest, s)
			case v.Sign() > 0:
				pos = append(pos, s)
			default:
				neg = append(neg, s)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a := new(big.Rat).Neg(n.co[k])
				b := p.co[k]
				r := linIneq{co: map[string]*big.Rat{}, c: new(big.Rat)}
				r.c.Add(new(big.Rat).Mul(p.c, a), new(big.Rat).Mul(n.c, b))
				for kk, v := range p.co {
					if kk != k {
						r.co[kk] = new(big.Rat).Mul(v, a)
					}
				}
				for kk, v := range n.co {
					if kk == k {
						continue
					}
					x := new(big.Rat).Mul(v, b)
					if o, ok := r.co[kk]; ok {
						x.Add(x, o)
					}
					r.co[kk] = x
				}
				for kk, v := range r.co {
					if v.Sign() == 0 {
						delete(r.co, kk)
					}
				}
				if len(r.co) == 0 {
					if r.c.Sign() > 0 {
						return false
					}
					continue
				}
				rest = append(rest, r)
			}
		}
		sys = rest
		if len(sys) > 2000 {
			return true // give up: treat as possibly feasible
		}
		for _, s := range sys {
			if len(s.co) == 0 && s.c.Sign() > 0 {
				return false
			}
		}
	}
	for _, s := range sys {
		if len(s.co) == 0 && s.c.Sign() > 0 {
			return false
		}
	}
	return true
}

// productFacts: a <= 0 and G > 0 give G*a <= 0; added where all products
// already occur.
func productFacts(sys []linIneq, vars map[string]bool, monos map[string]Mono) []linIneq {
	var factors []*Term
	seen := map[*Term]int{}
	var out []linIneq
	// a > 0 and b > 0 give a*b > 0
	over0 := func(t *Term) bool {
		k := monoKey(polyOf(t)[0])
		for _, s := range sys {
			if v := s.co[k]; len(s.co) == 1 && v != nil && v.Sign() < 0 && s.c.Sign() > 0 {
				return true
			}
		}
		return false
	}
	var keys []string
	for k := range vars {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if m := monos[k]; len(m.fs) == 2 && over0(m.fs[0]) && over0(m.fs[1]) {
			out = append(out, linIneq{co: map[string]*big.Rat{k: big.NewRat(-1, 1)}, c: big.NewRat(1, 1)})
		}
	}
	for k := range vars {
		if m := monos[k]; len(m.fs) == 2 {
			for i, f := range m.fs {
				if i == 1 && f == m.fs[0] {
					continue
				}
				seen[f]++
			}
		}
	}
	for f, n := range seen {
		if n >= 2 {
			factors = append(factors, f)
		}
	}
	if len(factors) == 0 {
		return out
	}
	sort.Slice(factors, func(i, j int) bool { return factors[i].id < factors[j].id })
	for _, g := range factors {
		gk := monoKey(polyOf(g)[0])
		if !over0(g) {
			continue
		}
		for _, s := range sys {
			q := linIneq{co: map[string]*big.Rat{}, c: new(big.Rat)}
			n := 0
			ok := len(s.co) > 1
			for k, v := range s.co {
				m := monos[k]
				if len(m.fs) != 1 {
					ok = false
					break
				}
				pk := monoKey(polyMul([]Mono{{1, m.fs}}, polyOf(g))[0])
				if !vars[pk] {
					ok = false
					break
				}
				q.co[pk] = v
				n++
			}
			if !ok {
				continue
			}
			if s.c.Sign() != 0 {
				vars[gk] = true
				monos[gk] = Mono{1, []*Term{g}}
				q.co[gk] = s.c
			}
			out = append(out, q)
		}
	}
	return out
}

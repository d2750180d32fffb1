package main

// Abstract memory: canonical address -> value, with an epoch per address
// pattern (element addresses with the index forgotten) for what a store to an
// unknown element may have changed.

import (
	"fmt"
	"go/types"
	"sort"
)

type State struct {
	heap map[*Term]Val
	ep   map[*Term]string
}

func newState() *State { return &State{map[*Term]Val{}, map[*Term]string{}} }

func (s *State) clone() *State {
	n := &State{make(map[*Term]Val, len(s.heap)), make(map[*Term]string, len(s.ep))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ep {
		n.ep[k] = v
	}
	return n
}

var star = mkTerm("star", "", types.Typ[types.Int])

var patMemo = map[*Term]*Term{}

func pattern(a *Term) *Term {
	if p, ok := patMemo[a]; ok {
		return p
	}
	var r *Term
	switch a.op {
	case "index":
		r = mkTerm("index", "", a.typ, pattern(a.args[0]), star)
	case "field":
		r = mkTerm("field", a.aux, a.typ, pattern(a.args[0]))
	default:
		r = a
	}
	patMemo[a] = r
	return r
}

func rootOf(a *Term) *Term {
	for a.op == "index" || a.op == "field" {
		a = a.args[0]
	}
	return a
}

// distinctAddr: two addresses of one pattern that cannot be equal.
func distinctAddr(a, b *Term) bool {
	for a.op == "index" || a.op == "field" {
		if b.op != a.op {
			return false
		}
		if a.op == "index" {
			d := sub(a.args[1], b.args[1])
			if n, ok := d.intVal(); ok && n != 0 {
				return true
			}
		}
		a, b = a.args[0], b.args[0]
	}
	return false
}

func isFreshRoot(r *Term) bool {
	switch r.op {
	case "alloc", "make":
		return true
	}
	return false
}

func (e *Engine) storeLeaf(st *State, addr *Term, typ types.Type, v Val, tag string) {
	e.noteWrite(addr, typ)
	pat := pattern(addr)
	if pat != addr {
		for k := range st.heap {
			if k != addr && pattern(k) == pat && !distinctAddr(k, addr) {
				delete(st.heap, k)
			}
		}
		if !(isFreshRoot(rootOf(addr)) && constIndexed(addr)) {
			st.ep[pat] = tag
			e.ownTag(tag)
		}
	}
	st.heap[addr] = v
}

func constIndexed(a *Term) bool {
	for a.op == "index" || a.op == "field" {
		if a.op == "index" {
			if _, ok := a.args[1].intVal(); !ok {
				return false
			}
		}
		a = a.args[0]
	}
	return true
}

func (e *Engine) storeVal(st *State, addr *Term, typ types.Type, v Val, tag string) {
	if s := structOf(typ); s != nil {
		sv, ok := v.(*StructVal)
		if !ok {
			sv = symVal(toTerm(v), typ).(*StructVal)
		}
		for i := 0; i < s.NumFields(); i++ {
			e.storeVal(st, partAddr(addr, s, s.Field(i)), s.Field(i).Type(), sv.f[i], tag)
		}
		return
	}
	if a := arrayOf(typ); a != nil {
		sv, ok := v.(*StructVal)
		if !ok {
			sv = symVal(toTerm(v), typ).(*StructVal)
		}
		for i := int64(0); i < a.Len(); i++ {
			e.storeVal(st, indexAddr(addr, intTerm(i), a.Elem()), a.Elem(), sv.f[i], tag)
		}
		return
	}
	e.storeLeaf(st, addr, typ, v, tag)
}

func (e *Engine) loadVal(st *State, addr *Term, typ types.Type) Val {
	if s := structOf(typ); s != nil {
		v := &StructVal{typ: typ}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, e.loadVal(st, partAddr(addr, s, s.Field(i)), s.Field(i).Type()))
		}
		return v
	}
	if a := arrayOf(typ); a != nil {
		v := &StructVal{typ: typ}
		for i := int64(0); i < a.Len(); i++ {
			v.f = append(v.f, e.loadVal(st, indexAddr(addr, intTerm(i), a.Elem()), a.Elem()))
		}
		return v
	}
	return e.loadLeaf(st, addr, typ)
}

func (e *Engine) loadLeaf(st *State, addr *Term, typ types.Type) Val {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if addr.op == "index" && addr.args[0].op == "alloc" {
		// symbolic index into a constant table built in a local array
		if _, isC := addr.args[1].intVal(); !isC {
			if pt, ok := addr.args[0].typ.(*types.Pointer); ok {
				if at := arrayOf(pt.Elem()); at != nil && st.ep[pattern(addr)] == "" {
					var gs []*Node
					var vs []Val
					for i := int64(0); i < at.Len(); i++ {
						gs = append(gs, intCmp("==", addr.args[1], intTerm(i)))
						vs = append(vs, e.loadLeaf(st, indexAddr(addr.args[0], intTerm(i), at.Elem()), typ))
					}
					if len(vs) > 0 {
						return mergeVals(gs, vs)
					}
				}
			}
		}
	}
	pat := pattern(addr)
	tag := st.ep[pat]
	// a wider region (whole object) may have been overwritten
	for p := addr; (p.op == "index" || p.op == "field") && tag == ""; {
		p = p.args[0]
		tag = st.ep[mkTerm("region", "", nil, pattern(p))]
	}
	if tag == "" && isFreshRoot(rootOf(addr)) {
		if pat == addr || constIndexed(addr) || !e.anyPattern(st, pat) {
			return zeroVal(typ)
		}
		tag = "mixed"
	}
	if tag == "" && addr.op == "index" && addr.args[0].op == "append" {
		// element of an extended slice
		base := addr.args[0].args[0]
		k := sub(addr.args[1], lenTerm(base))
		if n, ok := k.intVal(); ok && n >= 0 && int(n) < len(addr.args[0].args)-1 {
			el := addr.args[0].args[1+n]
			if el.op == "struct" || el.op == "boolv" || el.op == "gv" {
				if bv, ok := el.obj.(*Node); ok {
					return BoolVal{bv}
				}
				return el.obj.(Val)
			}
			return symVal(el, typ)
		}
	}
	if addr.op == "global" && tag == "" {
		if v, ok := e.globalConst(addr, typ); ok {
			return v
		}
	}
	if addr.op == "index" && addr.args[0].op == "global" && tag == "" {
		if v, ok := e.globalElem(addr, typ); ok {
			return v
		}
	}
	t := mkTerm("load", tag, typ, addr)
	if t.typ == nil || (isInt(typ) && !isInt(t.typ)) {
		t.typ = typ
	}
	if tag != "" {
		if o, ok := e.tagOwner[tag]; ok && len(o) > 0 {
			e.setOwner(t, o)
		}
	}
	return symVal(t, typ)
}

func (e *Engine) anyPattern(st *State, pat *Term) bool {
	for k := range st.heap {
		if pattern(k) == pat {
			return true
		}
	}
	return false
}

// havocRegion forgets everything stored under pointer or slice p.
func (e *Engine) havocRegion(st *State, p *Term, tag string) {
	for p.op == "slice" {
		p = p.args[0]
	}
	pp := pattern(p)
	for k := range st.heap {
		for x := k; ; x = x.args[0] {
			if pattern(x) == pp {
				delete(st.heap, k)
				break
			}
			if x.op != "index" && x.op != "field" {
				break
			}
		}
	}
	for k := range st.ep {
		x := k
		if k.op == "region" {
			x = k.args[0]
		}
		for ; x.op == "index" || x.op == "field"; x = x.args[0] {
			if x.args[0] == pp {
				delete(st.ep, k)
				break
			}
		}
	}
	st.ep[mkTerm("region", "", nil, pp)] = tag
	e.ownTag(tag)
	e.noteRegion(p)
}

func (e *Engine) clearObject(st *State, obj *Term) {
	for k := range st.heap {
		if rootOf(k) == obj {
			delete(st.heap, k)
		}
	}
	for k := range st.ep {
		x := k
		if k.op == "region" {
			x = k.args[0]
		}
		if rootOf(x) == obj {
			delete(st.ep, k)
		}
	}
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

type edge struct {
	g    *Node
	st   *State
	from int // predecessor edge index in the target block
}

// mergeStates joins memories at a control-flow join.
func (e *Engine) mergeStates(es []edge, tagBase string) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	out := newState()
	keys := map[*Term]bool{}
	for _, x := range es {
		for k := range x.st.heap {
			keys[k] = true
		}
	}
	for _, k := range sortedTerms(keys) {
		var gs []*Node
		var vs []Val
		var typ types.Type
		if pt, ok := k.typ.(*types.Pointer); ok {
			typ = pt.Elem()
		}
		okAll := true
		for _, x := range es {
			v, ok := x.st.heap[k]
			if !ok {
				if typ == nil {
					okAll = false
					break
				}
				v = e.loadLeaf(x.st, k, typ)
			}
			gs = append(gs, x.g)
			vs = append(vs, v)
		}
		if okAll {
			out.heap[k] = mergeVals(gs, vs)
		}
	}
	eps := map[*Term]bool{}
	for _, x := range es {
		for k := range x.st.ep {
			eps[k] = true
		}
	}
	for _, k := range sortedTerms(eps) {
		tag := es[0].st.ep[k]
		for _, x := range es[1:] {
			if x.st.ep[k] != tag {
				tag = fmt.Sprintf("m%s", tagBase)
				e.ownTag(tag)
				break
			}
		}
		out.ep[k] = tag
	}
	return out
}

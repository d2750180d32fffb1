package main

// Transfer functions of SSA instructions and calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) exec(fr *Frame, in ssa.Instruction, site string, g *Node, st *State) (*Node, *State) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := mkTerm("alloc", site, x.Type())
		e.setGor(t)
		e.setOwner(t, append([]*LoopInst{}, e.loops...))
		e.clearObject(st, t)
		fr.env[x] = sc(t)
	case *ssa.BinOp:
		a, b := e.get(fr, x.X), e.get(fr, x.Y)
		fr.env[x] = e.binop(x.Op, a, b, x.X.Type(), x.Type())
	case *ssa.UnOp:
		v := e.get(fr, x.X)
		switch x.Op {
		case token.MUL:
			typ := x.Type()
			fr.env[x] = e.loadPtr(st, v, typ)
			if e.assumeHook != nil {
				e.assumeHook(e, fr, in)
			}
		case token.NOT:
			fr.env[x] = BoolVal{not(asBool(v))}
		case token.SUB:
			fr.env[x] = lift([]Val{v}, func(ts []*Term) Val {
				if isInt(x.Type()) {
					return sc(retype(sub(constTerm(constant.MakeInt64(0), x.Type()), ts[0]), x.Type()))
				}
				if f, ok := ts[0].floatVal(); ok && f != 0 {
					return sc(floatTerm(-f))
				}
				return sc(mkTerm("fneg", "", x.Type(), ts[0]))
			})
		case token.XOR:
			fr.env[x] = lift([]Val{v}, func(ts []*Term) Val { return sc(notTerm(ts[0], x.Type())) })
		case token.ARROW:
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			t := e.freshAt("recv", "", site, et)
			val := symVal(t, et)
			ef := &Effect{kind: "recv", guard: g, addr: toTerm(v), val: val, pos: x.Pos(), ctx: site, instr: in}
			e.emit(ef)
			if x.CommaOk {
				okT := e.freshAt("recvok", "", site, types.Typ[types.Bool])
				ef.okAtom = okT
				fr.env[x] = &TupleVal{[]Val{val, BoolVal{bd.atom(okT)}}}
			} else {
				fr.env[x] = val
			}
		default:
			panic(undecided("unary operator " + x.Op.String()))
		}
	case *ssa.Call:
		v, ng, nst := e.callSite(fr, in, &x.Call, site, g, st)
		fr.env[x] = v
		return ng, nst
	case *ssa.ChangeInterface:
		fr.env[x] = e.get(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = e.get(fr, x.X)
	case *ssa.Convert:
		v := e.get(fr, x.X)
		from, to := x.X.Type(), x.Type()
		fr.env[x] = lift([]Val{v}, func(ts []*Term) Val { return sc(convTerm(ts[0], from, to)) })
	case *ssa.MultiConvert:
		panic(undecided("generic conversion"))
	case *ssa.MakeInterface:
		v := e.get(fr, x.X)
		if _, isS := v.(*Scalar); isS {
			fr.env[x] = lift([]Val{v}, func(ts []*Term) Val { return sc(ifaceTerm(x.X.Type(), sc(ts[0]), x.Type())) })
		} else {
			fr.env[x] = sc(ifaceTerm(x.X.Type(), v, x.Type()))
		}
	case *ssa.MakeClosure:
		co := &closureObj{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			co.bind = append(co.bind, e.get(fr, b))
		}
		t := mkTerm("closure", site, x.Type())
		t.obj = co
		fr.env[x] = sc(t)
	case *ssa.MakeMap:
		t := mkTerm("makemap", site, x.Type())
		e.setGor(t)
		e.setOwner(t, append([]*LoopInst{}, e.loops...))
		fr.env[x] = sc(t)
	case *ssa.MakeChan:
		t := mkTerm("makechan", site, x.Type(), toTerm(e.get(fr, x.Size)))
		e.setOwner(t, append([]*LoopInst{}, e.loops...))
		fr.env[x] = sc(t)
	case *ssa.MakeSlice:
		t := mkTerm("make", site, x.Type(), toTerm(e.get(fr, x.Len)), toTerm(e.get(fr, x.Cap)))
		e.setGor(t)
		e.setOwner(t, append([]*LoopInst{}, e.loops...))
		e.clearObject(st, t)
		e.emit(&Effect{kind: "make", guard: g, addr: t, args: []Val{e.get(fr, x.Len), e.get(fr, x.Cap)}, pos: x.Pos(), ctx: site, instr: in})
		fr.env[x] = sc(t)
	case *ssa.Slice:
		v := e.get(fr, x.X)
		lo := Val(sc(intTerm(0)))
		if x.Low != nil {
			lo = e.get(fr, x.Low)
		}
		var hi Val
		if x.High != nil {
			hi = e.get(fr, x.High)
		}
		var arrLen *Term
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				arrLen = intTerm(at.Len())
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "slicelit" && hi == nil && x.Low == nil {
			// the list of some nodes or numbers is made from an empty one
			if el := x.Type().Underlying().(*types.Slice).Elem(); strings.HasSuffix(el.String(), ".lgNode") || isFloat(el) {
				whole := sc(sliceTerm(toTerm(v), intTerm(0), arrLen, x.Type()))
				if elems := e.sliceElems(st, whole); len(elems) > 0 {
					ets := []*Term{nilTerm}
					for _, y := range elems {
						ets = append(ets, toTerm(y))
					}
					out := sc(mkTerm("append", "", x.Type(), ets...))
					e.emit(&Effect{kind: "append", guard: g, addr: nilTerm, args: append([]Val{whole}, elems...), val: out, res: boolIf(true), pos: x.Pos(), ctx: site, instr: in})
					fr.env[x] = out
					break
				}
			}
		}
		vals := []Val{v, lo}
		if hi != nil {
			vals = append(vals, hi)
		}
		fr.env[x] = lift(vals, func(ts []*Term) Val {
			var h *Term
			if hi != nil {
				h = ts[2]
			} else if arrLen != nil {
				h = arrLen
			} else {
				h = lenTerm(ts[0])
			}
			return sc(sliceTerm(ts[0], ts[1], h, x.Type()))
		})
		if hi != nil || x.Low != nil {
			e.emit(&Effect{kind: "slice", guard: g, val: v, args: []Val{lo, hi}, pos: x.Pos(), ctx: site, instr: in})
		}
	case *ssa.FieldAddr:
		st0 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := st0.Field(x.Field)
		fr.env[x] = lift([]Val{e.get(fr, x.X)}, func(ts []*Term) Val { return sc(partAddr(ts[0], st0, f)) })
	case *ssa.Field:
		v := e.get(fr, x.X)
		if sv, ok := v.(*StructVal); ok {
			fr.env[x] = sv.f[x.Field]
		} else {
			f := structOf(x.X.Type()).Field(x.Field)
			fr.env[x] = symVal(mkTerm("fieldof", f.Name(), f.Type(), toTerm(v)), f.Type())
		}
	case *ssa.IndexAddr:
		var elem types.Type
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			elem = t.Elem()
		case *types.Pointer:
			elem = t.Elem().Underlying().(*types.Array).Elem()
		}
		b, i := e.get(fr, x.X), e.get(fr, x.Index)
		e.emit(&Effect{kind: "index", guard: g, val: b, args: []Val{i}, pos: x.Pos(), ctx: site, instr: in})
		fr.env[x] = lift([]Val{b, i}, func(ts []*Term) Val { return sc(indexAddr(ts[0], ts[1], elem)) })
	case *ssa.Index:
		b, i := e.get(fr, x.X), e.get(fr, x.Index)
		if sv, ok := b.(*StructVal); ok {
			fr.env[x] = lift([]Val{i}, func(ts []*Term) Val {
				if n, ok := ts[0].intVal(); ok && int(n) < len(sv.f) && n >= 0 {
					return sv.f[n]
				}
				var gs []*Node
				var vs []Val
				for k := range sv.f {
					gs = append(gs, intCmp("==", ts[0], intTerm(int64(k))))
					vs = append(vs, sv.f[k])
				}
				return mergeVals(gs, vs)
			})
		} else {
			fr.env[x] = lift([]Val{b, i}, func(ts []*Term) Val {
				return symVal(mkTerm("elem", "", x.Type(), ts[0], ts[1]), x.Type())
			})
		}
	case *ssa.Lookup:
		fr.env[x] = e.lookup(st, x, e.get(fr, x.X), e.get(fr, x.Index), g)
	case *ssa.MapUpdate:
		m := e.get(fr, x.Map)
		e.emit(&Effect{kind: "mapupdate", guard: g, addr: toTerm(m), args: []Val{e.get(fr, x.Key)}, val: e.get(fr, x.Value), pos: x.Pos(), ctx: site, instr: in})
		for _, a := range altsOf(m) {
			e.havocRegion(st, a.t, "mu"+site)
		}
	case *ssa.TypeAssert:
		fr.env[x], g = e.typeAssert(x, e.get(fr, x.X), g, site)
	case *ssa.Extract:
		v := e.get(fr, x.Tuple)
		switch tv := v.(type) {
		case *TupleVal:
			fr.env[x] = tv.v[x.Index]
		default:
			fr.env[x] = symVal(mkTerm("res", fmt.Sprint(x.Index), x.Type(), toTerm(v)), x.Type())
		}
	case *ssa.Range:
		fr.env[x] = sc(mkTerm("range", site, nil, toTerm(e.get(fr, x.X))))
	case *ssa.Next:
		tp := x.Type().(*types.Tuple)
		t := e.freshAt("next", "", site, tp)
		t2 := mkTerm("nextof", "", tp, t, toTerm(e.get(fr, x.Iter)))
		tv := &TupleVal{}
		for i := 0; i < tp.Len(); i++ {
			ty := tp.At(i).Type()
			if ty == nil || ty == types.Typ[types.Invalid] {
				tv.v = append(tv.v, sc(mkTerm("res", fmt.Sprint(i), ty, t2)))
				continue
			}
			tv.v = append(tv.v, symVal(mkTerm("res", fmt.Sprint(i), ty, t2), ty))
		}
		fr.env[x] = tv
	case *ssa.Store:
		e.storePtr(fr, st, e.get(fr, x.Addr), x.Val.Type(), e.get(fr, x.Val), site, g, x.Pos(), in)
	case *ssa.Send:
		e.emit(&Effect{kind: "send", guard: g, addr: toTerm(e.get(fr, x.Chan)), val: e.get(fr, x.X), pos: x.Pos(), ctx: site, instr: in})
	case *ssa.Go:
		e.emit(&Effect{kind: "go", guard: g, pos: x.Pos(), ctx: site, instr: in})
		og := e.gor
		e.ngor++
		e.gor = int(x.Pos())
		w := map[*Term]types.Type{}
		rg := map[*Term]bool{}
		e.writes = append(e.writes, w)
		e.regions = append(e.regions, rg)
		e.callSite(fr, in, &x.Call, site, g, st.clone())
		e.writes = e.writes[:len(e.writes)-1]
		e.regions = e.regions[:len(e.regions)-1]
		e.gor = og
		ws := map[*Term]bool{}
		for a := range w {
			ws[a] = true
		}
		for _, a := range sortedTerms(ws) {
			if pattern(a) != a {
				st.ep[pattern(a)] = "go" + site
				for k := range st.heap {
					if pattern(k) == pattern(a) {
						delete(st.heap, k)
					}
				}
			} else {
				st.heap[a] = symVal(e.freshAt("shared", fmt.Sprint(a.id), site, w[a]), w[a])
			}
		}
		for _, r := range sortedTerms(rg) {
			e.havocRegion(st, r, "go"+site)
		}
	case *ssa.Defer:
		d := deferred{cc: &x.Call, guard: g, instr: in, loops: append([]*LoopInst{}, e.loops...)}
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			d.fnv = e.get(fr, x.Call.Value)
		} else if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			d.fnv = e.get(fr, mc)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.get(fr, a))
		}
		fr.defers = append(fr.defers, d)
		e.emit(&Effect{kind: "defer", guard: g, pos: x.Pos(), ctx: site, instr: in, args: d.args, fn: x.Call.StaticCallee(), name: calleeName(&x.Call)})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			dg := and(g, d.guard)
			if dg == bd.F {
				continue
			}
			_, ng, nst := e.dispatch(fr, d.instr, d.cc, d.fnv, d.args, fmt.Sprintf("%s/d%d", site, i), dg, st.clone())
			if dg == g {
				g, st = ng, nst
				if g == bd.F {
					return g, st
				}
			} else {
				st = e.mergeStates([]edge{{and(g, not(dg)), st, 0}, {ng, nst, 0}}, site)
			}
		}
	case *ssa.Select:
		panic(undecided("select statement in " + fr.fn.String()))
	default:
		panic(undecided(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
	}
	return g, st
}

func (e *Engine) binop(op token.Token, a, b Val, typ, rtyp types.Type) Val {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isBoolT(typ) {
			r := xor(asBool(a), asBool(b))
			if op == token.EQL {
				r = not(r)
			}
			return BoolVal{r}
		}
		if _, ok := a.(*StructVal); ok {
			r := not(structNeq(a, b))
			if op == token.NEQ {
				r = not(r)
			}
			return BoolVal{r}
		}
		r := bd.F
		for _, x := range altsOf(a) {
			for _, y := range altsOf(b) {
				gg := and(x.g, y.g)
				if gg == bd.F {
					continue
				}
				r = or(r, and(gg, cmpTerms(op, x.t, y.t, typ)))
			}
		}
		return BoolVal{r}
	}
	return lift([]Val{a, b}, func(ts []*Term) Val {
		t := binTerm(op, ts[0], ts[1], rtyp)
		if t.op == "poly" && isInt(rtyp) && intBits(rtyp) < 32 {
			// small integers wrap around in ordinary use
			t = mkTerm("wrap", "", rtyp, t)
		}
		return sc(t)
	})
}

func structNeq(a, b Val) *Node {
	x, ok1 := a.(*StructVal)
	y, ok2 := b.(*StructVal)
	if ok1 && ok2 {
		r := bd.F
		for i := range x.f {
			r = or(r, structNeq(x.f[i], y.f[i]))
		}
		return r
	}
	if xb, ok := a.(BoolVal); ok {
		return xor(xb.n, asBool(b))
	}
	r := bd.F
	for _, p := range altsOf(a) {
		for _, q := range altsOf(b) {
			t := p.t.typ
			var n *Node
			if t != nil && (isInt(t) || isFloat(t)) {
				n = cmpTerms(token.NEQ, p.t, q.t, t)
			} else {
				n = not(genEq(p.t, q.t))
			}
			r = or(r, and(p.g, q.g, n))
		}
	}
	return r
}

func (e *Engine) loadPtr(st *State, ptr Val, typ types.Type) Val {
	as := altsOf(ptr)
	if len(as) == 1 {
		return e.loadVal(st, as[0].t, typ)
	}
	var gs []*Node
	var vs []Val
	for _, a := range as {
		if a.t == nilTerm {
			continue
		}
		gs = append(gs, a.g)
		vs = append(vs, e.loadVal(st, a.t, typ))
	}
	if len(vs) == 0 {
		return zeroVal(typ)
	}
	return mergeVals(gs, vs)
}

func (e *Engine) storePtr(fr *Frame, st *State, ptr Val, typ types.Type, v Val, site string, g *Node, pos token.Pos, in ssa.Instruction) {
	as := altsOf(ptr)
	for _, a := range as {
		if a.t == nilTerm {
			continue
		}
		if !(a.t.op == "alloc" && false) {
			e.emit(&Effect{kind: "store", guard: and(g, a.g), addr: a.t, val: v, pos: pos, ctx: site, instr: in})
		}
		if a.g == bd.T {
			e.storeVal(st, a.t, typ, v, "s"+site)
		} else {
			old := e.loadVal(st, a.t, typ)
			e.storeVal(st, a.t, typ, mergeCare([]*Node{a.g, not(a.g)}, []Val{v, old}, bd.T), "s"+site)
		}
	}
}

func (e *Engine) typeAssert(x *ssa.TypeAssert, v Val, g *Node, site string) (Val, *Node) {
	var gs []*Node
	var oks []Val
	var vals []Val
	to := x.AssertedType
	_, toIface := to.Underlying().(*types.Interface)
	name := types.TypeString(to, nil)
	for _, a := range altsOf(v) {
		gs = append(gs, a.g)
		switch {
		case a.t == nilTerm:
			oks = append(oks, BoolVal{bd.F})
			vals = append(vals, zeroVal(to))
		case a.t.op == "iface":
			io := a.t.obj.(*ifaceObj)
			if toIface {
				ok := types.Implements(io.typ, to.Underlying().(*types.Interface))
				oks = append(oks, BoolVal{bconst(ok)})
				vals = append(vals, sc(a.t))
			} else {
				ok := types.Identical(io.typ, to)
				oks = append(oks, BoolVal{bconst(ok)})
				if ok {
					vals = append(vals, io.val)
				} else {
					vals = append(vals, zeroVal(to))
				}
			}
		default:
			ok := bd.atom(mkTerm("is", name, types.Typ[types.Bool], a.t))
			oks = append(oks, BoolVal{ok})
			var r Val
			if toIface {
				r = sc(a.t)
			} else {
				r = symVal(mkTerm("as", name, to, a.t), to)
			}
			vals = append(vals, mergeCare([]*Node{ok, not(ok)}, []Val{r, zeroVal(to)}, bd.T))
		}
	}
	okv := mergeVals(gs, oks)
	val := mergeVals(gs, vals)
	if x.CommaOk {
		return &TupleVal{[]Val{val, okv}}, g
	}
	ok := asBool(okv)
	if and(g, not(ok)) != bd.F {
		e.emit(&Effect{kind: "assertpanic", guard: and(g, not(ok)), pos: x.Pos(), ctx: site, instr: x})
	}
	// the assertion holds afterwards
	val = mergeCare([]*Node{ok}, []Val{val}, ok)
	return restrictVal(val, ok), and(g, ok)
}

// restrictVal simplifies the guards inside v under care.
func restrictVal(v Val, care *Node) Val {
	switch x := v.(type) {
	case *Scalar:
		var alts []Alt
		for _, a := range x.alts {
			if and(a.g, care) != bd.F {
				alts = append(alts, Alt{simplify(a.g, care), a.t})
			}
		}
		if len(alts) == 0 {
			return v
		}
		return &Scalar{alts}
	case BoolVal:
		return BoolVal{simplify(x.n, care)}
	case *StructVal:
		o := &StructVal{typ: x.typ}
		for _, f := range x.f {
			o.f = append(o.f, restrictVal(f, care))
		}
		return o
	case *TupleVal:
		o := &TupleVal{}
		for _, f := range x.v {
			o.v = append(o.v, restrictVal(f, care))
		}
		return o
	}
	return v
}

func (e *Engine) lookup(st *State, x *ssa.Lookup, m, k Val, g *Node) Val {
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		// string indexing
		return lift([]Val{m, k}, func(ts []*Term) Val {
			return sc(mkTerm("elem", "", x.Type(), ts[0], ts[1]))
		})
	}
	vt := mt.Elem()
	var gs []*Node
	var vals []Val
	var oks []Val
	for _, a := range altsOf(m) {
		for _, b := range altsOf(k) {
			gg := and(a.g, b.g)
			if gg == bd.F {
				continue
			}
			gs = append(gs, gg)
			if a.t == nilTerm {
				vals = append(vals, zeroVal(vt))
				oks = append(oks, BoolVal{bd.F})
				continue
			}
			if a.t.op == "load" && a.t.args[0].op == "global" && a.t.aux == "" {
				if ents, ok := e.globMaps[a.t.args[0].obj.(*ssa.Global)]; ok {
					var ig []*Node
					var iv []Val
					rest := bd.T
					for _, en := range ents {
						c := asBool(e.binop(token.EQL, en.k, sc(b.t), mt.Key(), nil))
						ig = append(ig, c)
						iv = append(iv, en.v)
						rest = and(rest, not(c))
					}
					oks = append(oks, BoolVal{not(rest)})
					vals = append(vals, mergeCare(append(ig, rest), append(iv, zeroVal(vt)), bd.T))
					continue
				}
			}
			tag := st.ep[mkTerm("region", "", nil, pattern(a.t))]
			if a.t.op == "makemap" && tag == "" {
				vals = append(vals, zeroVal(vt))
				oks = append(oks, BoolVal{bd.F})
				continue
			}
			has := mkTerm("has", tag, types.Typ[types.Bool], a.t, b.t)
			t := mkTerm("lookup", tag, vt, a.t, b.t)
			if tag != "" {
				if o := e.tagOwner[tag]; len(o) > 0 {
					e.setOwner(has, o)
					e.setOwner(t, o)
				}
			}
			h := bd.atom(has)
			oks = append(oks, BoolVal{h})
			vals = append(vals, mergeCare([]*Node{h, not(h)}, []Val{symVal(t, vt), zeroVal(vt)}, bd.T))
		}
	}
	v := mergeVals(gs, vals)
	if x.CommaOk {
		return &TupleVal{[]Val{v, mergeVals(gs, oks)}}
	}
	return v
}

// ---- calls ---------------------------------------------------------------------------

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		return funcName(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

func funcName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if fo, ok := o.(*types.Func); ok {
			return fo.FullName()
		}
	}
	return f.String()
}

func (e *Engine) callSite(fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, site string, g *Node, st *State) (Val, *Node, *State) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.get(fr, a))
	}
	var fnv Val
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			fnv = e.get(fr, cc.Value)
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fnv = e.get(fr, mc)
	}
	return e.dispatch(fr, in, cc, fnv, args, site, g, st)
}

func (e *Engine) dispatch(fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, fnv Val, args []Val, site string, g *Node, st *State) (Val, *Node, *State) {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(fr, in, b, cc, args, site, g, st)
	}
	if !cc.IsInvoke() {
		if f := cc.StaticCallee(); f != nil {
			var bind []Val
			if fnv != nil {
				as := altsOf(fnv)
				if co, ok := as[0].t.obj.(*closureObj); ok {
					bind = co.bind
				}
			}
			return e.callFn(fr, in, f, args, bind, site, g, st)
		}
	}
	// dynamic: one branch per possible target
	var es []edge
	var gs []*Node
	var vs []Val
	res := cc.Signature().Results()
	for i, a := range altsOf(fnv) {
		ag := and(g, a.g)
		if ag == bd.F {
			continue
		}
		s2 := st
		asite := site
		if a.g != bd.T {
			s2 = st.clone()
			asite = fmt.Sprintf("%s~%d", site, i)
		}
		var v Val
		var ng *Node
		var nst *State
		switch {
		case a.t == nilTerm:
			e.emit(&Effect{kind: "nilcall", guard: ag, pos: in.Pos(), ctx: site, instr: in, name: calleeName(cc)})
			continue
		case cc.IsInvoke():
			if a.t.op == "iface" {
				io := a.t.obj.(*ifaceObj)
				f := e.prog.LookupMethod(io.typ, cc.Method.Pkg(), cc.Method.Name())
				if f == nil {
					panic(undecided("method not found: " + cc.Method.FullName()))
				}
				v, ng, nst = e.callFn(fr, in, f, append([]Val{io.val}, args...), nil, asite, ag, s2)
			} else {
				v, ng, nst = e.invokeUnknown(in, cc, a.t, args, asite, ag, s2)
			}
		default:
			switch o := a.t.obj.(type) {
			case *closureObj:
				v, ng, nst = e.callFn(fr, in, o.fn, args, o.bind, asite, ag, s2)
			case *ssa.Function:
				v, ng, nst = e.callFn(fr, in, o, args, nil, asite, ag, s2)
			default:
				name := "dyn:" + a.t.String()
				t := e.freshAt("ext", name, asite, res)
				v = e.extResult(t, res)
				e.emit(&Effect{kind: "call", guard: ag, name: name, addr: a.t, args: args, res: v, pos: in.Pos(), ctx: asite, instr: in})
				ng, nst = ag, s2
				for i, p := range args {
					e.havocArg(nst, p, cc.Args[i].Type(), asite, i)
				}
			}
		}
		if ng == bd.F {
			continue
		}
		es = append(es, edge{ng, nst, 0})
		gs = append(gs, ng)
		vs = append(vs, v)
	}
	if len(es) == 0 {
		return nil, bd.F, st
	}
	if len(es) == 1 {
		return vs[0], gs[0], es[0].st
	}
	return mergeVals(gs, vs), or(gs...), e.mergeStates(es, site)
}

func (e *Engine) extResult(t *Term, res *types.Tuple) Val {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		t.typ = res.At(0).Type()
		return symVal(t, res.At(0).Type())
	}
	v := symVal(t, res)
	for i, x := range v.(*TupleVal).v {
		_ = i
		if s, ok := x.(*Scalar); ok && len(s.alts) == 1 {
			e.setOwner(s.alts[0].t, e.owner[t])
		}
	}
	return v
}

// memTags: what the pure function may observe through its slice and pointer
// arguments, as epochs.
func (e *Engine) memTags(st *State, args []Val) string {
	s := ""
	for _, a := range args {
		for _, al := range altsOf(a) {
			b := al.t
			if b.op == "iface" {
				b = b.args[0]
			}
			for b.op == "slice" {
				b = b.args[0]
			}
			if tag := st.ep[mkTerm("index", "", nil, pattern(b), star)]; tag != "" {
				s += "," + tag
			}
			if tag := st.ep[mkTerm("region", "", nil, pattern(b))]; tag != "" {
				s += ",r" + tag
			}
		}
	}
	return s
}

func (e *Engine) pureCall(name string, args []Val, res *types.Tuple, st *State) Val {
	var typ types.Type = res
	if res.Len() == 1 {
		typ = res.At(0).Type()
	}
	tags := e.memTags(st, args)
	if len(args) == 0 || res.Len() == 0 {
		t := mkTerm("call", name+tags, typ)
		return e.extResult(t, res)
	}
	return lift(args, func(ts []*Term) Val {
		t := mkTerm("call", name+tags, typ, ts...)
		if tags != "" {
			for _, a := range strings.Split(tags, ",") {
				if o := e.tagOwner[strings.TrimPrefix(a, "r")]; len(o) > 0 {
					e.setOwner(t, o)
				} else if o := e.tagOwner[a]; len(o) > 0 {
					e.setOwner(t, o)
				}
			}
		}
		return e.extResult(t, res)
	})
}

func (e *Engine) invokeUnknown(in ssa.Instruction, cc *ssa.CallCommon, recv *Term, args []Val, site string, g *Node, st *State) (Val, *Node, *State) {
	name := cc.Method.FullName()
	res := cc.Signature().Results()
	pure := false
	if cc.Method.Name() == "Error" && len(args) == 0 {
		pure = true
	}
	if len(args) == 0 && strings.HasPrefix(name, "(reflect.") {
		pure = true
	}
	if e.pureInvoke(cc.Method) {
		pure = true
	}
	all := append([]Val{sc(recv)}, args...)
	if pure {
		v := e.pureCall(name, all, res, st)
		e.emit(&Effect{kind: "invoke", guard: g, name: name, addr: recv, args: args, res: v, pos: in.Pos(), ctx: site, instr: in, pure: true})
		return v, g, st
	}
	t := e.freshAt("ext", name, site, res)
	v := e.extResult(t, res)
	e.emit(&Effect{kind: "invoke", guard: g, name: name, addr: recv, args: args, res: v, pos: in.Pos(), ctx: site, instr: in})
	for i, p := range args {
		e.havocArg(st, p, cc.Args[i].Type(), site, i)
	}
	return v, g, st
}

// havocArg: an unknown callee may overwrite what a pointer or slice argument
// designates.
func (e *Engine) havocArg(st *State, v Val, typ types.Type, site string, i int) {
	tag := fmt.Sprintf("x%s.%d", site, i)
	for _, a := range altsOf(v) {
		t := a.t
		ty := typ
		if t.op == "iface" {
			io := t.obj.(*ifaceObj)
			ty = io.typ
			t = toTerm(io.val)
		}
		if ty == nil {
			continue
		}
		switch u := ty.Underlying().(type) {
		case *types.Slice:
			if t.op == "nil" {
				continue
			}
			e.havocRegion(st, t, tag)
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), e.mod) {
				continue // opaque library objects
			}
			if _, ok := u.Elem().Underlying().(*types.Slice); ok {
				// filling a slice keeps its header when it is already allocated
				cur := e.loadVal(st, t, u.Elem())
				if ct := toTerm(cur); ct.op == "make" || ct.op == "append" {
					e.havocRegion(st, ct, tag)
					continue
				}
			}
			ft := e.freshAt("out", fmt.Sprint(i), site, u.Elem())
			old := e.loadVal(st, t, u.Elem())
			nv := e.ownedSym(ft, u.Elem())
			if a.g != bd.T {
				nv = mergeCare([]*Node{a.g, not(a.g)}, []Val{nv, old}, bd.T)
			}
			e.storeVal(st, t, u.Elem(), nv, tag)
		case *types.Map:
			e.havocRegion(st, t, tag)
		}
	}
}

func (e *Engine) ownedSym(t *Term, typ types.Type) Val {
	return symVal(t, typ)
}

var purePkgs = map[string]bool{"math": true, "strings": true, "strconv": true, "unicode": true, "errors": true, "math/bits": true, "unicode/utf8": true}
var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"bytes.Replace": true, "bytes.ReplaceAll": true, "bytes.Equal": true, "bytes.TrimSpace": true, "bytes.HasPrefix": true, "bytes.Split": true, "bytes.Contains": true, "bytes.TrimRight": true, "bytes.TrimSuffix": true, "bytes.HasSuffix": true,
	"(encoding/binary.littleEndian).Uint64": true, "(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.littleEndian).Uint16": true,
	"(encoding/binary.bigEndian).Uint64": true, "(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint16": true,
	"(encoding/binary.ByteOrder).Uint64": true, "(encoding/binary.ByteOrder).Uint32": true,
	"encoding/binary.Size": true, "reflect.TypeOf": true, "sort.SearchInts": true,
}

func (e *Engine) callFn(fr *Frame, in ssa.Instruction, fn *ssa.Function, args, bind []Val, site string, g *Node, st *State) (Val, *Node, *State) {
	name := funcName(fn)
	sig := fn.Signature
	res := sig.Results()
	var argTypes []types.Type
	if sig.Recv() != nil {
		argTypes = append(argTypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		argTypes = append(argTypes, sig.Params().At(i).Type())
	}
	if !e.inModule(fn) && (fn.Synthetic == "" || len(fn.Blocks) == 0 || fn.Pkg != nil) {
		if v, ok := e.intrinsic(fn, name, args, st); ok {
			e.emit(&Effect{kind: "call", guard: g, fn: fn, name: name, args: args, res: v, pos: in.Pos(), ctx: site, instr: in, pure: true})
			return v, g, st
		}
		pkg := ""
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if o := fn.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
		if (purePkgs[pkg] && !strings.Contains(name, "Builder") && !strings.Contains(name, "strings.Reader")) || pureFuncs[name] {
			v := e.pureCall(name, args, res, st)
			e.emit(&Effect{kind: "call", guard: g, fn: fn, name: name, args: args, res: v, pos: in.Pos(), ctx: site, instr: in, pure: true})
			return v, g, st
		}
		t := e.freshAt("ext", name, site, res)
		v := e.extResult(t, res)
		e.emit(&Effect{kind: "call", guard: g, fn: fn, name: name, args: args, res: v, pos: in.Pos(), ctx: site, instr: in})
		if noReturn[name] {
			return v, bd.F, st
		}
		for i, p := range args {
			if i < len(argTypes) {
				ty := argTypes[i]
				if sig.Variadic() && i == len(args)-1 {
					// variadic interface arguments: look through the backing array
					for _, el := range e.sliceElems(st, p) {
						e.havocArg(st, el, types.NewInterfaceType(nil, nil), site, 100+i)
					}
					continue
				}
				if readOnlyExt[name] {
					continue
				}
				e.havocArg(st, p, ty, site, i)
			}
		}
		return v, g, st
	}
	rec := false
	rv := recvOf(fn, args)
	for i, f := range e.stack {
		// the same method on another, known object is not a recursion
		if f == fn && (rv == nil || e.recvs[i] == nil || e.recvs[i] == rv) {
			rec = true
		}
	}
	if rec || e.opaque(fn) || len(e.stack) > 40 || len(fn.Blocks) == 0 {
		if e.isPure(fn) {
			v := e.pureCall(name, args, res, st)
			e.emit(&Effect{kind: "call", guard: g, fn: fn, name: name, args: args, deref: e.derefs(st, args), res: v, pos: in.Pos(), ctx: site, instr: in, pure: true})
			return v, g, st
		}
		t := e.freshAt("ext", name, site, res)
		v := e.extResult(t, res)
		e.emit(&Effect{kind: "call", guard: g, fn: fn, name: name, args: args, deref: e.derefs(st, args), res: v, pos: in.Pos(), ctx: site, instr: in})
		for i, p := range args {
			if i < len(argTypes) && (e.writesArg == nil || e.writesArg(fn, i)) {
				e.havocArg(st, p, argTypes[i], site, i)
			}
		}
		for i, b := range bind {
			e.havocArg(st, b, fn.FreeVars[i].Type(), site, 50+i)
		}
		return v, g, st
	}
	if len(bind) != len(fn.FreeVars) {
		panic(undecided("closure environment of " + fn.String()))
	}
	nfr := &Frame{fn: fn, env: map[ssa.Value]Val{}, ctx: site}
	v, ng, nst := e.evalFn(nfr, args, bind, g, st)
	if c, ok := in.(*ssa.Call); ok && fr != nil && c.Call.StaticCallee() == fn {
		if fr.tails == nil {
			fr.tails = map[ssa.Instruction][]retEdge{}
		}
		fr.tails[in] = nfr.rets
	}
	return v, ng, nst
}

// derefs: what pointer arguments to local variables designate at the call.
func (e *Engine) derefs(st *State, args []Val) []Val {
	out := make([]Val, len(args))
	for i, a := range args {
		s, ok := a.(*Scalar)
		if !ok || len(s.alts) != 1 || s.alts[0].t.op != "alloc" {
			continue
		}
		if pt, ok := s.alts[0].t.typ.Underlying().(*types.Pointer); ok {
			out[i] = e.loadVal(st, s.alts[0].t, pt.Elem())
		}
	}
	return out
}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "runtime.Goexit": true}

// external functions that do not write through their arguments
var readOnlyExt = map[string]bool{
	"fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "os.Open": true, "os.Create": true,
	"bufio.NewReader": true, "bufio.NewWriter": true, "encoding/json.NewDecoder": true, "io.WriteString": true,
}

func (e *Engine) sliceElems(st *State, v Val) []Val {
	t := toTerm(v)
	if t.op == "nil" {
		return nil
	}
	if t.op == "slice" && t.args[0].op == "alloc" {
		pt := t.args[0].typ.Underlying().(*types.Pointer)
		at, ok := pt.Elem().Underlying().(*types.Array)
		lo, ok1 := t.args[1].intVal()
		hi, ok2 := t.args[2].intVal()
		if ok && ok1 && ok2 && hi-lo <= maxArray {
			var out []Val
			for i := lo; i < hi; i++ {
				out = append(out, e.loadVal(st, indexAddr(t.args[0], intTerm(i), at.Elem()), at.Elem()))
			}
			return out
		}
	}
	return nil
}

func (e *Engine) intrinsic(fn *ssa.Function, name string, args []Val, st *State) (Val, bool) {
	B := types.Typ[types.Bool]
	switch name {
	case "fmt.Errorf", "errors.New":
		return sc(mkTerm("errval", toTerm(args[0]).String(), fn.Signature.Results().At(0).Type())), true
	case "math.IsNaN":
		return lift(args, func(ts []*Term) Val { return BoolVal{isNaN(ts[0])} }), true
	case "math.NaN":
		return sc(mkTerm("nan", "", types.Typ[types.Float64])), true
	case "strings.HasPrefix":
		return lift(args, func(ts []*Term) Val {
			a, ok1 := ts[0].strVal()
			b, ok2 := ts[1].strVal()
			if ok1 && ok2 {
				return BoolVal{bconst(strings.HasPrefix(a, b))}
			}
			return BoolVal{bd.atom(mkTerm("hasprefix", "", B, ts[0], ts[1]))}
		}), true
	}
	return nil, false
}

func (e *Engine) builtin(fr *Frame, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, site string, g *Node, st *State) (Val, *Node, *State) {
	switch b.Name() {
	case "len":
		if at, ok := cc.Args[0].Type().Underlying().(*types.Array); ok {
			return sc(intTerm(at.Len())), g, st
		}
		if pt, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			return sc(intTerm(pt.Elem().Underlying().(*types.Array).Len())), g, st
		}
		return lift(args, func(ts []*Term) Val {
			t := ts[0]
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				tag := st.ep[mkTerm("region", "", nil, pattern(t))]
				l := mkTerm("len", tag, types.Typ[types.Int], t)
				return sc(l)
			}
			return sc(lenTerm(t))
		}), g, st
	case "cap":
		return lift(args, func(ts []*Term) Val {
			if ts[0].op == "make" {
				return sc(ts[0].args[1])
			}
			return sc(mkTerm("cap", "", types.Typ[types.Int], ts[0]))
		}), g, st
	case "append":
		if len(args) < 2 {
			return args[0], g, st
		}
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		elems := e.sliceElems(st, args[1])
		if elems == nil && toTerm(args[1]) == nilTerm {
			return args[0], g, st
		}
		var out Val
		if elems != nil {
			var ets []*Term
			for _, x := range elems {
				ets = append(ets, toTerm(x))
			}
			out = lift([]Val{args[0]}, func(ts []*Term) Val {
				return sc(mkTerm("append", "", cc.Args[0].Type(), append([]*Term{ts[0]}, ets...)...))
			})
			_ = el
		} else {
			out = lift(args[:2], func(ts []*Term) Val {
				return sc(mkTerm("appendall", e.memTags(st, []Val{sc(ts[1])}), cc.Args[0].Type(), ts[0], ts[1]))
			})
			elems = nil
		}
		e.emit(&Effect{kind: "append", guard: g, addr: toTerm(args[0]), args: append([]Val{args[1]}, elems...), val: out, res: boolIf(elems != nil), pos: in.Pos(), ctx: site, instr: in})
		return out, g, st
	case "copy":
		e.emit(&Effect{kind: "copy", guard: g, addr: toTerm(args[0]), args: args, pos: in.Pos(), ctx: site, instr: in})
		for _, a := range altsOf(args[0]) {
			if a.t != nilTerm {
				e.havocRegion(st, a.t, "cp"+site)
			}
		}
		return sc(e.freshAt("copied", "", site, types.Typ[types.Int])), g, st
	case "delete":
		e.emit(&Effect{kind: "mapdelete", guard: g, addr: toTerm(args[0]), args: args, pos: in.Pos(), ctx: site, instr: in})
		for _, a := range altsOf(args[0]) {
			e.havocRegion(st, a.t, "del"+site)
		}
		return nil, g, st
	case "close":
		e.emit(&Effect{kind: "close", guard: g, addr: toTerm(args[0]), pos: in.Pos(), ctx: site, instr: in})
		return nil, g, st
	case "print", "println":
		return nil, g, st
	case "recover":
		return sc(nilTerm), g, st
	case "panic":
		e.emit(&Effect{kind: "panic", guard: g, val: args[0], pos: in.Pos(), ctx: site, instr: in})
		return nil, bd.F, st
	case "ssa:wrapnilchk":
		return args[0], g, st
	case "min", "max":
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		cur := args[0]
		typ := cc.Args[0].Type()
		for _, a := range args[1:] {
			c := asBool(e.binop(op, cur, a, typ, typ))
			cur = mergeCare([]*Node{c, not(c)}, []Val{cur, a}, bd.T)
		}
		return cur, g, st
	case "clear":
		for _, a := range altsOf(args[0]) {
			e.havocRegion(st, a.t, "clr"+site)
		}
		e.emit(&Effect{kind: "clear", guard: g, addr: toTerm(args[0]), pos: in.Pos(), ctx: site, instr: in})
		return nil, g, st
	}
	panic(undecided("builtin " + b.Name()))
}

func boolIf(b bool) Val {
	if b {
		return BoolVal{bd.T}
	}
	return nil
}

// setGor: remember which goroutine allocated an object.
func (e *Engine) setGor(t *Term) {
	if e.rootGor == nil {
		e.rootGor = map[*Term]int{}
	}
	e.rootGor[t] = e.gor
}

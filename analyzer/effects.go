package main

// Whole-program ownership analysis: for every function, which memory it may
// write, expressed by where that memory comes from (a parameter, a captured
// variable, a package variable, memory allocated by the function itself).
// Flow-insensitive, deep (memory reached through a parameter counts as the
// parameter's), interprocedural by summaries, interface calls by all
// implementations in the module.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type origin struct {
	k byte // P parameter, F captured variable, G package variable, L local allocation, C result of a call, U unknown
	i int
	v ssa.Value
}

type oset map[origin]bool

type site struct {
	fn  *ssa.Function
	pos token.Pos
	how string
}

type summary struct {
	writes map[origin]site // P, F, G, U only
	rets   oset            // deep origins of results: P, F, G, U (L/C mean fresh)
	direct map[origin]bool // results that may be the origin itself or point into it
	cont   map[origin]oset // contents of local allocations
	flows  map[origin]oset // references stored in memory of the caller
	calls  map[*ssa.Function]token.Pos
	reads  map[*ssa.Global]token.Pos
}

type Effects struct {
	p    *Program
	e    *Engine
	sum  map[*ssa.Function]*summary
	more bool
	vals []*ssa.Function // functions used as values
}

func pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerish(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (p *Program) effects() *Effects {
	if p.eff != nil {
		return p.eff
	}
	ef := &Effects{p: p, e: p.engine(), sum: map[*ssa.Function]*summary{}}
	p.eff = ef
	fns := p.everyFunc()
	ef.vals = funcValues(fns)
	for _, f := range fns {
		ef.sum[f] = &summary{writes: map[origin]site{}, rets: oset{}, direct: map[origin]bool{}, cont: map[origin]oset{}, flows: map[origin]oset{}, calls: map[*ssa.Function]token.Pos{}, reads: map[*ssa.Global]token.Pos{}}
	}
	for i := 0; i < 60; i++ {
		ef.more = false
		for _, f := range fns {
			ef.scan(f)
		}
		if !ef.more {
			return ef
		}
	}
	panic(undecided("effect summaries do not converge"))
}

// everyFunc: all functions and closures of the module with bodies.
func (p *Program) everyFunc() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range p.allFuncs() {
		add(f)
	}
	// wrappers of promoted methods
	e := p.engine()
	for i := 0; i < len(out); i++ {
		for _, b := range out[i].Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.callees(e, cc.Common()) {
						if e.inModule(t) {
							add(t)
						}
					}
				}
			}
		}
	}
	return out
}

// callees: static callee, or every implementation in the module.
func (p *Program) callees(e *Engine, cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var out []*ssa.Function
		for _, t := range e.implementers(it) {
			if f := p.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				out = append(out, f)
			}
		}
		return out
	}
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func (ef *Effects) put(m oset, o origin) {
	if !m[o] {
		m[o] = true
		ef.more = true
	}
}

// origins of a value: the objects it is or points into.
func (ef *Effects) origins(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) oset {
	out := oset{}
	if seen[v] || !pointerish(v.Type()) {
		return out
	}
	seen[v] = true
	add := func(m oset) {
		for o := range m {
			out[o] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, q := range fn.Params {
			if q == x {
				out[origin{k: 'P', i: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, q := range fn.FreeVars {
			if q == x {
				out[origin{k: 'F', i: i}] = true
			}
		}
	case *ssa.Global:
		out[origin{k: 'G', v: x}] = true
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		out[origin{k: 'L', v: v}] = true
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.FieldAddr:
		add(ef.origins(fn, x.X, seen))
	case *ssa.IndexAddr:
		add(ef.origins(fn, x.X, seen))
	case *ssa.Field:
		add(ef.origins(fn, x.X, seen))
	case *ssa.Index:
		add(ef.origins(fn, x.X, seen))
	case *ssa.Slice:
		add(ef.origins(fn, x.X, seen))
	case *ssa.ChangeType:
		add(ef.origins(fn, x.X, seen))
	case *ssa.ChangeInterface:
		add(ef.origins(fn, x.X, seen))
	case *ssa.MakeInterface:
		add(ef.origins(fn, x.X, seen))
	case *ssa.TypeAssert:
		add(ef.origins(fn, x.X, seen))
	case *ssa.Extract:
		add(ef.origins(fn, x.Tuple, seen))
	case *ssa.Phi:
		calls := false
		for _, q := range x.Edges {
			add(ef.origins(fn, q, seen))
			if ex, ok := q.(*ssa.Extract); ok {
				q = ex.Tuple
			}
			_, c := q.(*ssa.Call)
			calls = calls || c
		}
		if calls {
			// handed to a function that may return (part of) it
			add(ef.deep(fn, out))
		}
	case *ssa.Convert:
		// string <-> []byte copies
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			out[origin{k: 'L', v: v}] = true
		} else {
			add(ef.origins(fn, x.X, seen))
		}
	case *ssa.SliceToArrayPointer:
		add(ef.origins(fn, x.X, seen))
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			add(ef.origins(fn, b, seen))
		}
		add(ef.deep(fn, out))
	case *ssa.Lookup:
		add(ef.content(fn, ef.origins(fn, x.X, seen)))
	case *ssa.Next:
		add(ef.origins(fn, x.Iter, seen))
	case *ssa.Range:
		add(ef.content(fn, ef.origins(fn, x.X, seen)))
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			add(ef.content(fn, ef.origins(fn, x.X, seen)))
		}
	case *ssa.Call:
		add(ef.callOrigins(fn, x, seen))
	default:
		out[origin{k: 'U'}] = true
	}
	return out
}

// content: what loading from these objects can yield.
func (ef *Effects) content(fn *ssa.Function, m oset) oset {
	out := oset{}
	done := map[origin]bool{}
	var rec func(o origin)
	rec = func(o origin) {
		switch o.k {
		case 'L', 'C':
			for q := range ef.sum[fn].cont[o] {
				if !out[q] {
					out[q] = true
				}
			}
			if o.k == 'C' {
				out[o] = true
			}
		default:
			out[o] = true
		}
	}
	for o := range m {
		if !done[o] {
			done[o] = true
			rec(o)
		}
	}
	return out
}

// deep: everything reachable.
func (ef *Effects) deep(fn *ssa.Function, m oset) oset {
	out := oset{}
	work := []origin{}
	for o := range m {
		out[o] = true
		work = append(work, o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for q := range ef.sum[fn].cont[o] {
			if !out[q] {
				out[q] = true
				work = append(work, q)
			}
		}
	}
	return out
}

// argOf: the argument bound to parameter i of callee f at a call.
func argOf(cc *ssa.CallCommon, i int) ssa.Value {
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < len(cc.Args) {
		return cc.Args[i]
	}
	return nil
}

// bind translates a callee origin to the caller.
func (ef *Effects) bind(fn *ssa.Function, cc *ssa.CallCommon, o origin) oset {
	return ef.bindSeen(fn, cc, o, map[ssa.Value]bool{})
}

func (ef *Effects) bindSeen(fn *ssa.Function, cc *ssa.CallCommon, o origin, seen map[ssa.Value]bool) oset {
	switch o.k {
	case 'P':
		if a := argOf(cc, o.i); a != nil {
			return ef.deep(fn, ef.origins(fn, a, seen))
		}
		return oset{origin{k: 'U'}: true}
	case 'F':
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && o.i < len(mc.Bindings) {
			return ef.deep(fn, ef.origins(fn, mc.Bindings[o.i], seen))
		}
		return oset{origin{k: 'U'}: true}
	}
	return oset{o: true}
}

func (ef *Effects) callOrigins(fn *ssa.Function, x *ssa.Call, seen map[ssa.Value]bool) oset {
	out := oset{}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
		if b.Name() == "append" {
			for o := range ef.origins(fn, x.Call.Args[0], seen) {
				out[o] = true
			}
			out[origin{k: 'L', v: x}] = true
		}
		return out
	}
	out[origin{k: 'C', v: x}] = true
	cs := ef.p.callees(ef.e, &x.Call)
	for _, f := range cs {
		s := ef.sum[f]
		if s == nil {
			continue // library: a fresh object; see scan for its contents
		}
		for o := range s.direct {
			for q := range ef.bindSeen(fn, &x.Call, o, seen) {
				out[q] = true
			}
		}
	}
	if fs := ef.valuesOf(&x.Call); len(cs) == 0 && len(fs) > 0 {
		for _, f := range fs {
			for o := range ef.sum[f].direct {
				for q := range ef.bindSeen(fn, &x.Call, o, seen) {
					out[q] = true
				}
			}
		}
		return out
	}
	if len(cs) == 0 && x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
		out[origin{k: 'U'}] = true
	}
	return out
}

func (ef *Effects) wrote(fn *ssa.Function, m oset, st site) {
	s := ef.sum[fn]
	for o := range m {
		if o.k == 'L' || o.k == 'C' {
			continue
		}
		if _, ok := s.writes[o]; !ok {
			s.writes[o] = st
			ef.more = true
		}
	}
}

func (ef *Effects) flow(fn *ssa.Function, dst, src oset) {
	s := ef.sum[fn]
	for d := range dst {
		if d.k == 'P' || d.k == 'F' {
			if s.flows[d] == nil {
				s.flows[d] = oset{}
			}
			for o := range ef.deep(fn, src) {
				if o != d && o.k != 'L' && o.k != 'C' {
					ef.put(s.flows[d], o)
				}
			}
			continue
		}
		if d.k != 'L' && d.k != 'C' || !holdsPointers(d.v) {
			continue
		}
		if s.cont[d] == nil {
			s.cont[d] = oset{}
		}
		for o := range src {
			ef.put(s.cont[d], o)
		}
	}
}

// holdsPointers: memory of this object can contain references.
func holdsPointers(v ssa.Value) bool {
	if v == nil {
		return true
	}
	switch t := v.Type().Underlying().(type) {
	case *types.Pointer:
		return pointerish(t.Elem())
	case *types.Slice:
		return pointerish(t.Elem())
	case *types.Chan:
		return pointerish(t.Elem())
	}
	return true
}

func (ef *Effects) scan(fn *ssa.Function) {
	s := ef.sum[fn]
	or := func(v ssa.Value) oset { return ef.origins(fn, v, map[ssa.Value]bool{}) }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					if _, ok := s.reads[g]; !ok {
						s.reads[g] = in.Pos()
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				a := or(x.Addr)
				ef.wrote(fn, a, site{fn, x.Pos(), "assignment"})
				ef.flow(fn, a, or(x.Val))
			case *ssa.MapUpdate:
				a := or(x.Map)
				ef.wrote(fn, a, site{fn, x.Pos(), "map update"})
				ef.flow(fn, a, or(x.Key))
				ef.flow(fn, a, or(x.Value))
			case *ssa.MakeClosure:
				ef.closure(fn, x)
			case *ssa.Send:
				ef.flow(fn, or(x.Chan), or(x.X))
			case *ssa.Return:
				for _, r := range x.Results {
					o1 := or(r)
					for o := range o1 {
						if o.k != 'L' && o.k != 'C' && !s.direct[o] {
							s.direct[o] = true
							ef.more = true
						}
					}
					for o := range ef.deep(fn, o1) {
						if o.k != 'L' && o.k != 'C' {
							ef.put(s.rets, o)
						}
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				ef.call(fn, in, ci.Common())
			}
		}
	}
}

func (ef *Effects) call(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon) {
	s := ef.sum[fn]
	or := func(v ssa.Value) oset { return ef.origins(fn, v, map[ssa.Value]bool{}) }
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "copy", "clear", "delete":
			ef.wrote(fn, or(cc.Args[0]), site{fn, in.Pos(), b.Name()})
			if len(cc.Args) > 1 {
				ef.flow(fn, or(cc.Args[0]), ef.content(fn, or(cc.Args[1])))
			}
		case "append":
			// may write into the spare capacity of its first argument
			ef.wrote(fn, or(cc.Args[0]), site{fn, in.Pos(), "append"})
			if v, ok := in.(ssa.Value); ok {
				ef.flow(fn, or(v), ef.content(fn, or(cc.Args[1])))
				ef.flow(fn, or(v), ef.content(fn, or(cc.Args[0])))
			}
		}
		return
	}
	cs := ef.p.callees(ef.e, cc)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && !cc.IsInvoke() {
		if f, ok := mc.Fn.(*ssa.Function); ok {
			cs = []*ssa.Function{f}
		}
	}
	res := oset{}
	if v, ok := in.(*ssa.Call); ok {
		res[origin{k: 'C', v: v}] = true
	}
	if len(cs) == 0 && !cc.IsInvoke() && cc.StaticCallee() == nil {
		if fs := ef.valuesOf(cc); len(fs) > 0 {
			for _, f := range fs {
				ef.dynamic(fn, in, cc, f, res)
			}
			return
		}
		ef.wrote(fn, oset{origin{k: 'U'}: true}, site{fn, in.Pos(), "call of an unknown function value"})
		return
	}
	if cc.IsInvoke() && len(cs) == 0 {
		// library interface (error, io.Reader): writes its arguments
		if cc.Method.Name() == "Error" || cc.Method.Name() == "String" {
			return
		}
		ef.wrote(fn, ef.deep(fn, or(cc.Value)), site{fn, in.Pos(), "call of " + cc.Method.Name()})
		for _, a := range cc.Args {
			ef.wrote(fn, ef.deep(fn, or(a)), site{fn, in.Pos(), "call of " + cc.Method.Name()})
		}
		return
	}
	for _, f := range cs {
		if t := ef.sum[f]; t != nil {
			if _, ok := s.calls[f]; !ok {
				s.calls[f] = in.Pos()
				ef.more = true
			}
			for o, st := range t.writes {
				b := ef.bind(fn, cc, o)
				ef.wrote(fn, b, st)
			}
			for d, src := range t.flows {
				b := ef.bind(fn, cc, d)
				for o := range src {
					ef.flow(fn, b, ef.bind(fn, cc, o))
				}
			}
			for o := range t.rets {
				ef.flow(fn, res, ef.bind(fn, cc, o))
			}
			continue
		}
		// library function
		name := funcName(f)
		pkg := ""
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		}
		for i := 0; ; i++ {
			a := argOf(cc, i)
			if a == nil {
				break
			}
			ef.flow(fn, res, ef.deep(fn, or(a)))
			if purePkgs[pkg] || pureFuncs[name] || readOnlyExt[name] || pkg == "fmt" && name != "fmt.Sscanf" && name != "fmt.Sscan" && name != "fmt.Fscan" && name != "fmt.Fscanf" {
				continue
			}
			if !pointerish(a.Type()) {
				continue
			}
			ef.wrote(fn, ef.deep(fn, or(a)), site{fn, in.Pos(), "call of " + name})
		}
	}
}

// writesArg: f may write memory reached from its parameter i.
func (ef *Effects) writesArg(f *ssa.Function, i int) bool {
	s := ef.sum[f]
	if s == nil {
		return true
	}
	for o := range s.writes {
		if o.k == 'U' || (o.k == 'P' && o.i == i) {
			return true
		}
	}
	return false
}

// reach: functions reachable from f, with one call path each.
func (ef *Effects) reach(f *ssa.Function) map[*ssa.Function]string {
	out := map[*ssa.Function]string{f: fname(f)}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		s := ef.sum[g]
		if s == nil {
			continue
		}
		var cs []*ssa.Function
		for h := range s.calls {
			cs = append(cs, h)
		}
		sort.Slice(cs, func(i, j int) bool { return fname(cs[i]) < fname(cs[j]) })
		for _, h := range cs {
			if _, ok := out[h]; !ok {
				out[h] = out[g] + " > " + fname(h)
				work = append(work, h)
			}
		}
	}
	return out
}

func (o origin) String() string {
	switch o.k {
	case 'P':
		return fmt.Sprintf("parameter %d", o.i)
	case 'F':
		return fmt.Sprintf("captured variable %d", o.i)
	case 'G':
		return "package variable " + o.v.Name()
	case 'U':
		return "unknown memory"
	}
	return "local memory"
}

// funcValues: the functions of the module that are used as values.
func funcValues(fns []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if ci, isC := in.(ssa.CallInstruction); !ok || seen[f] || isC && ci.Common().Value == *op {
						continue
					}
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// valuesOf: the functions a function value called can be; nil if it can come
// from outside the module.
func (ef *Effects) valuesOf(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() || cc.StaticCallee() != nil {
		return nil
	}
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	same := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && types.Identical(stripRecv(s), stripRecv(sig))
	}
	var out []*ssa.Function
	for f, s := range ef.sum {
		if s == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for _, q := range f.Params {
			if same(q.Type()) {
				return nil
			}
		}
	}
	for _, f := range ef.vals {
		if !same(f.Signature) {
			continue
		}
		if ef.sum[f] == nil {
			return nil // a library function
		}
		out = append(out, f)
	}
	return out
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// closure: what a closure does to the variables it captures counts where it
// is made.
func (ef *Effects) closure(fn *ssa.Function, mc *ssa.MakeClosure) {
	f, _ := mc.Fn.(*ssa.Function)
	t := ef.sum[f]
	if t == nil {
		return
	}
	if _, ok := ef.sum[fn].calls[f]; !ok {
		ef.sum[fn].calls[f] = mc.Pos()
		ef.more = true
	}
	bind := func(o origin) oset {
		switch o.k {
		case 'F':
			return ef.deep(fn, ef.origins(fn, mc.Bindings[o.i], map[ssa.Value]bool{}))
		case 'P':
			return oset{origin{k: 'U'}: true}
		}
		return oset{o: true}
	}
	for o, st := range t.writes {
		if o.k != 'P' {
			ef.wrote(fn, bind(o), st)
		}
	}
	for d, src := range t.flows {
		if d.k == 'F' {
			for o := range src {
				ef.flow(fn, bind(d), bind(o))
			}
		}
	}
}

// dynamic: a call of f as a value.
func (ef *Effects) dynamic(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon, f *ssa.Function, res oset) {
	t := ef.sum[f]
	if _, ok := ef.sum[fn].calls[f]; !ok {
		ef.sum[fn].calls[f] = in.Pos()
		ef.more = true
	}
	for o, st := range t.writes {
		if o.k == 'F' {
			continue // counted where the closure is made
		}
		ef.wrote(fn, ef.bind(fn, cc, o), st)
	}
	for d, src := range t.flows {
		if d.k == 'P' {
			b := ef.bind(fn, cc, d)
			for o := range src {
				ef.flow(fn, b, ef.bind(fn, cc, o))
			}
		}
	}
	for o := range t.rets {
		ef.flow(fn, res, ef.bind(fn, cc, o))
	}
}

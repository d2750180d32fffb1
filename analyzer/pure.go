package main

// Purity: a function is pure when neither it nor anything it may call writes
// memory it did not allocate itself, communicates, or calls impure library
// code. Pure opaque calls are named by their arguments.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// writes: which parameters a function writes through; known is false when it
// does more than that.
type writes struct {
	known  bool
	params map[int]bool
	free   map[int]bool // captured variables written through
	calls  map[int]bool // parameters it calls
}

var pureMemo = map[*ssa.Function]*writes{}

func (e *Engine) isPure(fn *ssa.Function) bool {
	w := e.writesOf(fn)
	return w.known && len(w.params) == 0 && len(w.free) == 0 && len(w.calls) == 0
}

func (e *Engine) writesOf(fn *ssa.Function) *writes {
	if w := pureMemo[fn]; w != nil {
		return w
	}
	w := &writes{known: true, params: map[int]bool{}, free: map[int]bool{}, calls: map[int]bool{}}
	pureMemo[fn] = w // recursion adds nothing
	if !e.pureBody(fn, w) {
		w.known = false
	}
	return w
}

// rootsOf: the parameters the memory behind v may belong to; ok is false when
// it may be memory of someone else.
func (e *Engine) rootsOf(v ssa.Value, seen map[ssa.Value]bool, ps map[int]bool) (ok bool) {
	if seen[v] {
		return true
	}
	seen[v] = true
	all := func(vs ...ssa.Value) bool {
		for _, q := range vs {
			if !e.rootsOf(q, seen, ps) {
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Const:
		return true
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				ps[i] = true
			}
		}
		return true
	case *ssa.FreeVar:
		for i, q := range x.Parent().FreeVars {
			if q == x {
				ps[-1-i] = true
			}
		}
		return true
	case *ssa.FieldAddr:
		return all(x.X)
	case *ssa.IndexAddr:
		return all(x.X)
	case *ssa.Slice:
		return all(x.X)
	case *ssa.ChangeType:
		return all(x.X)
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.Extract:
		if c, isC := x.Tuple.(*ssa.Call); isC {
			return e.resultRoots(c, x.Index, seen, ps)
		}
	case *ssa.Call:
		if b, isB := x.Call.Value.(*ssa.Builtin); isB {
			return b.Name() == "append" && all(x.Call.Args[0])
		}
		return e.resultRoots(x, 0, seen, ps)
	case *ssa.UnOp:
		if a, isA := x.X.(*ssa.Alloc); isA {
			// a local cell: everything stored in it must be known
			for _, r := range *a.Referrers() {
				if s, isS := r.(*ssa.Store); isS && s.Addr == a {
					if !all(s.Val) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

// resultRoots: the same for the i-th result of a call.
func (e *Engine) resultRoots(c *ssa.Call, i int, seen map[ssa.Value]bool, ps map[int]bool) bool {
	f := c.Call.StaticCallee()
	if f == nil || !e.inModule(f) || len(f.Blocks) == 0 {
		return false
	}
	qs := map[int]bool{}
	inner := map[ssa.Value]bool{c: true}
	for v := range seen {
		if _, isC := v.(*ssa.Call); isC {
			inner[v] = true
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !e.rootsOf(r.Results[i], inner, qs) {
			return false
		}
	}
	for k := range qs {
		if k < 0 || k >= len(c.Call.Args) || !e.rootsOf(c.Call.Args[k], seen, ps) {
			return false
		}
	}
	return true
}

func (e *Engine) pureBody(fn *ssa.Function, w *writes) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	mem := func(v ssa.Value) bool {
		ps := map[int]bool{}
		ok := e.rootsOf(v, map[ssa.Value]bool{}, ps)
		for i := range ps {
			if i < 0 {
				w.free[-1-i] = true
			} else {
				w.params[i] = true
			}
		}
		return ok
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !mem(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !mem(x.Map) {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer:
				return false
			case *ssa.Call:
				if !e.pureCallee(&x.Call, w, mem) {
					return false
				}
			}
		}
	}
	return true
}

// pureFunc: a function value may be called without writing more than mem
// allows.
func (e *Engine) pureFunc(v ssa.Value, w *writes, mem func(ssa.Value) bool) bool {
	switch x := v.(type) {
	case *ssa.Function:
		return e.isPure(x)
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				w.calls[i] = true
			}
		}
		return true
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		q := e.writesOf(f)
		return q.known && len(q.params) == 0 && len(q.calls) == 0 && bound(x, q, mem)
	}
	return false
}

func bound(x *ssa.MakeClosure, q *writes, mem func(ssa.Value) bool) bool {
	for i := range q.free {
		if !mem(x.Bindings[i]) {
			return false
		}
	}
	return true
}

func (e *Engine) pureCallee(cc *ssa.CallCommon, w *writes, mem func(ssa.Value) bool) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "copy", "delete", "close", "clear", "append":
			return len(cc.Args) > 0 && mem(cc.Args[0])
		case "panic", "print", "println", "recover":
			return false
		}
		return true
	}
	if cc.IsInvoke() {
		return e.pureInvoke(cc.Method) || cc.Method.Name() == "Error"
	}
	f := cc.StaticCallee()
	if f == nil {
		return e.pureFunc(cc.Value, w, mem)
	}
	if e.inModule(f) {
		q := e.writesOf(f)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && !bound(mc, q, mem) {
			return false
		} else if !ok && len(q.free) > 0 {
			return false
		}
		for i := range q.params {
			if i >= len(cc.Args) || !mem(cc.Args[i]) {
				return false
			}
		}
		for i := range q.calls {
			if i >= len(cc.Args) || !e.pureFunc(cc.Args[i], w, mem) {
				return false
			}
		}
		return q.known
	}
	name := funcName(f)
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	}
	return purePkgs[pkg] || pureFuncs[name] || name == "fmt.Errorf"
}

func (e *Engine) pureInvoke(m *types.Func) bool {
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil || m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), e.mod) {
		return false
	}
	it, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for _, t := range e.implementers(it) {
		f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil || !e.isPure(f) {
			return false
		}
		n++
	}
	return n > 0
}

// implementers: the module's named types (and pointers) implementing it.
func (e *Engine) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() != e.mod && !strings.HasPrefix(p.Pkg.Path(), e.mod+"/") {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

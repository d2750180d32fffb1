package main

// C01: prediction and query methods write only the result and their own
// memory, keep no state, and depend on nothing but model and arguments.

import (
	"go/ast"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// resultParam: the slice a prediction method fills (-1: none). Receiver is 0.
func resultParam(f *ssa.Function) int {
	switch f.Name() {
	case "Predict", "PredictCSR", "PredictDense":
	default:
		return -1
	}
	k := -1
	for i, q := range f.Params {
		if sl, ok := q.Type().Underlying().(*types.Slice); ok && isF64(sl.Elem()) {
			k = i
		}
	}
	return k
}

func libOK(f *ssa.Function) bool {
	if f.Pkg == nil { // synthetic wrapper
		return true
	}
	switch f.Pkg.Pkg.Path() {
	case "math", "math/bits", "fmt", "errors", "strings", "strconv", "bytes", "unicode", "unicode/utf8", "slices", "sort", "sync", "encoding/binary", "cmp":
		return f.Name() != "init"
	case "runtime":
		return f.Name() == "NumCPU" || f.Name() == "GOMAXPROCS" || f.Name() == "NumGoroutine" || f.Name() == "Gosched"
	}
	return false
}

func ruleReadOnly(p *Program, c *Ctx) {
	sh := p.shape()
	ef := p.effects()
	// entry points: everything exported on the ensemble and what it returns
	var ents []*ssa.Function
	add := func(t types.Type) {
		ms := p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if !ast.IsExported(ms.At(i).Obj().Name()) {
				continue
			}
			if f := p.prog.MethodValue(ms.At(i)); f != nil {
				ents = append(ents, f)
			}
		}
	}
	add(types.NewPointer(sh.ensT))
	for _, t := range sh.transImpl {
		if _, ok := t.(*types.Pointer); !ok {
			t = types.NewPointer(t)
		}
		add(t)
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].String() < ents[j].String() })
	mutable := p.mutableGlobals(ef)
	all := map[*ssa.Function]string{}
	for _, f := range ents {
		s := ef.sum[f]
		if s == nil { // promoted: look at the target
			for g := range p.promoted(f) {
				for h, path := range ef.reach(g) {
					all[h] = path
				}
				c.readOnly(p, ef, g, -1)
			}
			continue
		}
		res := resultParam(f)
		if f.Name() == "Transform" && len(f.Params) == 4 {
			res = 2
		}
		c.readOnly(p, ef, f, res)
		for h, path := range ef.reach(f) {
			if _, ok := all[h]; !ok {
				all[h] = path
			}
		}
	}
	var fs []*ssa.Function
	for f := range all {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		s := ef.sum[f]
		if s == nil {
			continue
		}
		path := all[f]
		for g, pos := range s.reads {
			if ws, bad := mutable[g]; bad {
				c.must(false, "shared-state", f, pos, "a prediction or query depends on package variable %s, which changes after initialisation @@%s; changed in %s", g.Name(), path, ws)
			} else {
				c.must(true, "shared-state", f, pos, "")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Range); ok {
					_, isMap := r.X.Type().Underlying().(*types.Map)
					c.must(!isMap, "deterministic", f, in.Pos(), "a prediction or query depends on the order of a map @@%s", path)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, isB := cc.Value.(*ssa.Builtin); isB {
					continue
				}
				if cc.IsInvoke() && len(p.callees(ef.e, cc)) == 0 && !hasPfx(cc.Method.Name(), "Error", "String") {
					c.must(false, "deterministic", f, in.Pos(), "a prediction or query calls %s of an unknown implementation @@%s", cc.Method.Name(), path)
				}
				g := cc.StaticCallee()
				if g == nil || ef.sum[g] != nil {
					continue
				}
				c.must(libOK(g) || ef.e.inModule(g), "deterministic", f, in.Pos(), "a prediction or query depends on or changes the outside world through %s @@%s", funcName(g), path)
				if funcName(g) == "runtime.GOMAXPROCS" {
					k, isC := cc.Args[0].(*ssa.Const)
					z := false
					if isC {
						v, ok := constInt2(k)
						z = ok && v <= 0
					}
					c.must(z, "deterministic", f, in.Pos(), "a prediction changes the number of processors of the program")
				}
			}
		}
	}
	c.floor("writes", 15)
	c.floor("deterministic", 10)
}

func constInt2(k *ssa.Const) (int64, bool) {
	t := one(constVal(k))
	if t == nil {
		return 0, false
	}
	return t.intVal()
}

// promoted: implementations a promoted interface method can reach.
func (p *Program) promoted(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	e := p.engine()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range p.callees(e, ci.Common()) {
					out[g] = true
				}
			}
		}
	}
	return out
}

// mutableGlobals: package variables of the module written outside package
// initialisation.
func (p *Program) mutableGlobals(ef *Effects) map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for f, s := range ef.sum {
		if f.Name() == "init" && f.Signature.Recv() == nil || f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for o, st := range s.writes {
			if o.k == 'G' {
				if g, ok := o.v.(*ssa.Global); ok {
					if _, ok := out[g]; !ok || fname(st.fn) < out[g] {
						out[g] = fname(st.fn)
					}
				}
			}
		}
	}
	return out
}

func (c *Ctx) readOnly(p *Program, ef *Effects, f *ssa.Function, res int) {
	s := ef.sum[f]
	if s == nil {
		return
	}
	var os []origin
	for o := range s.writes {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].String() < os[j].String() })
	c.must(true, "writes", f, f.Pos(), "")
	for _, o := range os {
		st := s.writes[o]
		what := o.String()
		if o.k == 'P' {
			if o.i == res {
				continue
			}
			what = "argument " + f.Params[o.i].Name()
			if o.i == 0 && f.Signature.Recv() != nil {
				what = "the model itself"
			}
		}
		c.must(false, "writes", st.fn, st.pos, "%s changes %s by %s", fname(f), what, st.how)
	}
}

func init() {
	reg("C01", ruleReadOnly, "Interprocedural effect analysis: for every function the memory it may write, by origin (parameter, captured variable, package variable, own allocation), deep and flow-insensitive, summaries to a fixed point, interface calls by all implementations. Rule: exported methods of the model and of transformations write only the result slice and memory they allocated; nothing they reach reads package state that changes after initialisation, iterates over a map, or calls library functions with outside effects.", asmAlias, "library functions write what the analysis lists for them (pure packages nothing, others everything reachable from pointer arguments)")
}

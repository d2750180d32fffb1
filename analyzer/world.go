package main

// Worlds: concrete shapes of a loaded ensemble. The wrapper's dynamic types
// are enumerated so that every interface call inlines; all field values stay
// symbolic.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type World struct {
	name   string
	model  string // type name of the innermost model
	modelT types.Type
	trans  string // type name of the transformation
	wrap   bool
	ens    *Term // *Ensemble
	inner  *Term // pointer to the innermost model
	tr     *Term // pointer to the transformation
	st     *State
	groups *Term // raw output groups of the model
	outer  *Term // transform group count
}

type Shape struct {
	ensT      *types.Named
	modelF    *types.Var // interface field
	transF    *types.Var
	modelIf   *types.Interface
	models    []types.Type // pointer types, excluding *Ensemble
	transImpl []types.Type
}

func (p *Program) shape() *Shape {
	t := p.typ("", "Ensemble")
	s := &Shape{ensT: t.(*types.Named)}
	st := structOf(t)
	if st == nil {
		panic(undecided("Ensemble is not a struct"))
	}
	tr := p.typ("transformation", "Transform")
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		it, ok := f.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		if types.Identical(f.Type(), tr) {
			s.transF = f
			continue
		}
		s.modelF, s.modelIf = f, it
	}
	if s.modelF == nil || s.transF == nil {
		panic(undecided("Ensemble does not hold a model and a transformation"))
	}
	e := newEngine(p.prog, modPath)
	for _, x := range e.implementers(s.modelIf) {
		if pt, ok := x.(*types.Pointer); ok && types.Identical(pt.Elem(), s.ensT) {
			continue
		}
		s.models = append(s.models, x)
	}
	s.transImpl = e.implementers(tr.Underlying().(*types.Interface))
	return s
}

func baseName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (p *Program) worlds() []*World {
	s := p.shape()
	var out []*World
	for _, m := range s.models {
		for _, tr := range s.transImpl {
			for _, wrap := range []bool{false, true} {
				out = append(out, p.world(s, m, tr, wrap))
			}
		}
	}
	return out
}

func (p *Program) world(s *Shape, m, tr types.Type, wrap bool) *World {
	w := &World{model: baseName(m), modelT: m, trans: baseName(tr), wrap: wrap, st: newState()}
	w.name = fmt.Sprintf("%s/%s", w.model, w.trans)
	if wrap {
		w.name += "/wrapped"
	}
	pe := types.NewPointer(s.ensT)
	w.ens = mkTerm("sym", "e", pe)
	mk := func(name string, t types.Type) (*Term, Val) {
		x := mkTerm("sym", name, t)
		if _, ok := t.(*types.Pointer); ok {
			return x, sc(x)
		}
		return x, symVal(x, t)
	}
	var mv, tv Val
	w.inner, mv = mk("model", m)
	w.tr, tv = mk("transform", tr)
	set := func(obj *Term, mt types.Type, mv Val, tt types.Type, tv Val) {
		w.st.heap[fieldAddr(obj, s.modelF.Name(), s.modelF.Type())] = sc(ifaceTerm(mt, mv, s.modelF.Type()))
		w.st.heap[fieldAddr(obj, s.transF.Name(), s.transF.Type())] = sc(ifaceTerm(tt, tv, s.transF.Type()))
	}
	if wrap {
		in := mkTerm("sym", "inner", pe)
		otr := s.transImpl[0]
		_, ov := mk("innerTransform", otr)
		set(in, m, mv, otr, ov)
		set(w.ens, pe, sc(in), tr, tv)
	} else {
		set(w.ens, m, mv, tr, tv)
	}
	return w
}

// isTree: functions that evaluate one tree for one row.
func (p *Program) treeFn(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
		return false
	}
	hasT, hasF := false, false
	lt := p.typ("", "lgTree")
	for _, q := range fn.Params {
		t := q.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if types.Identical(t, lt) {
			hasT = true
		}
		if sl, ok := q.Type().(*types.Slice); ok && isFloat(sl.Elem()) {
			hasF = true
		}
	}
	return hasT && hasF
}

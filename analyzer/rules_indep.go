package main

// C26: loading and reading depend on nothing but the input, and loads share
// nothing with each other.

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inputOK: library calls a loader may make: pure ones and those that read or
// write the given stream or file.
func inputOK(f *ssa.Function) bool {
	if libOK(f) {
		return true
	}
	if f.Pkg == nil {
		return true
	}
	switch f.Pkg.Pkg.Path() {
	case "bufio", "io", "io/ioutil", "encoding/json", "encoding/hex", "unicode/utf16", "reflect", "regexp", "path", "path/filepath", "math/big", "container/list", "iter", "maps", "unsafe", "math/cmplx", "text/scanner", "encoding":
		return f.Name() != "init"
	case "os":
		switch f.Name() {
		case "Open", "Create", "OpenFile", "ReadFile", "WriteFile", "Stat", "IsNotExist", "IsExist":
			return true
		}
		return f.Signature.Recv() != nil
	case "io/fs":
		return true
	}
	return false
}

// inputEntries: what users call to read or write models and matrices.
func (p *Program) inputEntries(ef *Effects) []*ssa.Function {
	var out []*ssa.Function
	for f := range ef.sum {
		if f.Synthetic != "" || f.Object() == nil || !ast.IsExported(f.Name()) {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if types.Identical(t, p.shape().ensT) {
				continue // C01
			}
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func ruleIndependent(p *Program, c *Ctx) {
	ef := p.effects()
	mutable := p.mutableGlobals(ef)
	all := map[*ssa.Function]string{}
	for _, f := range p.inputEntries(ef) {
		work := ef.reach(f)
		for h, path := range work {
			if _, ok := all[h]; !ok {
				all[h] = path
			}
			for _, a := range h.AnonFuncs {
				for k, path2 := range ef.reach(a) {
					if _, ok := all[k]; !ok {
						all[k] = path + " > " + path2
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range all {
		if ef.sum[f] != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		s, path := ef.sum[f], all[f]
		c.must(true, "state", f, f.Pos(), "")
		for o, st := range s.writes {
			if o.k == 'G' && st.fn == f {
				c.must(false, "state", f, st.pos, "a call changes package variable %s by %s, which later and concurrent calls see @@%s", o.v.Name(), st.how, path)
			}
		}
		for g, pos := range s.reads {
			if ws, bad := mutable[g]; bad {
				c.must(false, "state", f, pos, "the result depends on package variable %s, which changes after initialisation @@%s; changed in %s", g.Name(), path, ws)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						c.must(orderFree(x), "deterministic", f, in.Pos(), "the result depends on the order of a map @@%s", path)
					}
				case *ssa.Select:
					c.must(len(x.States) == 0 || len(x.States) == 1 && x.Blocking, "deterministic", f, in.Pos(), "the result depends on timing @@%s", path)
				case *ssa.Convert:
					b, ok := x.Type().Underlying().(*types.Basic)
					bad := ok && b.Kind() == types.Uintptr
					c.must(!bad, "deterministic", f, in.Pos(), "the result depends on an address @@%s", path)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && ef.sum[g] == nil {
					c.must(inputOK(g) || ef.e.inModule(g), "deterministic", f, in.Pos(), "the result depends on %s, which is no part of the input @@%s", funcName(g), path)
				}
			}
		}
	}
	c.floor("state", 60)
	c.floor("deterministic", 100)
}

// orderFree: a loop over a map whose outcome does not depend on the order:
// nothing is changed or carried from one round to the next, and the loop is
// only left early for one key, or with an outcome that says nothing about
// the element.
func orderFree(r *ssa.Range) bool {
	var nx *ssa.Next
	for _, u := range *r.Referrers() {
		n, ok := u.(*ssa.Next)
		if !ok || nx != nil {
			return false
		}
		nx = n
	}
	if nx == nil {
		return true
	}
	head := nx.Block()
	// blocks of the loop
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range head.Parent().Blocks {
		if head.Dominates(b) && reaches(b, head) {
			in[b] = true
		}
	}
	for _, x := range head.Instrs {
		if _, ok := x.(*ssa.Phi); ok {
			return false
		}
	}
	elems := map[ssa.Value]bool{}
	var key ssa.Value
	for _, u := range *nx.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
			elems[e] = true
			if e.Index == 1 {
				key = e
			}
		}
	}
	keyed := func(b *ssa.BasicBlock) bool { // only for one key
		for ; b != nil && b != head; b = b.Idom() {
			d := b.Idom()
			if d == nil {
				return false
			}
			i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || d.Succs[0] != b || len(b.Preds) != 1 {
				continue
			}
			if q, ok := i.Cond.(*ssa.BinOp); ok && q.Op == token.EQL && key != nil && (q.X == key && outside(q.Y, in) || q.Y == key && outside(q.X, in)) {
				return true
			}
		}
		return false
	}
	for _, b := range head.Parent().Blocks {
		if !head.Dominates(b) || b == head {
			continue
		}
		if !in[b] {
			// left early from inside?
			early, free := false, true
			for _, q := range b.Preds {
				if in[q] && q != head {
					early = true
				}
			}
			if early {
				for _, x := range b.Instrs {
					for _, o := range x.Operands(nil) {
						if elems[*o] && !keyed(b) {
							free = false
						}
						if y, ok := (*o).(ssa.Instruction); ok && y.Block() != nil && in[y.Block()] && !keyed(b) {
							if _, isErr := x.(*ssa.Return); !isErr {
								free = false
							}
						}
					}
				}
				if len(b.Preds) > 1 {
					for _, x := range b.Instrs {
						if ph, ok := x.(*ssa.Phi); ok {
							for _, q := range ph.Edges {
								if y, ok := q.(ssa.Instruction); ok && in[y.Block()] || elems[q] {
									free = false
								}
							}
						}
					}
				}
			}
			if !free {
				return false
			}
			continue
		}
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Store, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.MapUpdate:
				if y.Key != key {
					return false
				}
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() != "append" && bi.Name() != "copy" {
					continue
				}
				g := y.Call.StaticCallee()
				if g == nil || !libOK(g) || strings.HasPrefix(g.Name(), "Fprint") {
					return false
				}
			case *ssa.Return:
				if !keyed(b) {
					return false
				}
			}
		}
	}
	return true
}

func outside(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	x, ok := v.(ssa.Instruction)
	return !ok || !in[x.Block()]
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

func init() {
	reg("C26", ruleIndependent, "Interprocedural effect analysis from every exported function of the packages that read or write models and matrices (and the closures they make): no package variable is written after initialisation, none that is written is read, no map is iterated over in a way that lets its order show, and library calls are limited to those whose result is determined by their arguments and the stream or file they are given.", asmAlias, "library functions outside the listed packages are taken to depend on the outside world")
}

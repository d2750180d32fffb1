package main

// Loading: the type-checked program of /repo, all packages, as SSA.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dmitryikh/leaves"

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by path relative to the module ("" is the root)
	init []*packages.Package
	dir  string
	eff  *Effects

	treeFns map[*ssa.Function]bool // see treeLoader

	catBounds, catWords string // see catLists
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedImports | packages.NeedDeps,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0"),
	}
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type checking %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	r := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, init: pkgs, dir: dir}
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		if p.PkgPath == modPath {
			r.pkgs[""] = sp
		} else if strings.HasPrefix(p.PkgPath, modPath+"/") {
			r.pkgs[strings.TrimPrefix(p.PkgPath, modPath+"/")] = sp
		}
	}
	if r.pkgs[""] == nil {
		return nil, fmt.Errorf("package %s not found in %s", modPath, dir)
	}
	return r, nil
}

func (p *Program) pkg(rel string) *ssa.Package {
	q := p.pkgs[rel]
	if q == nil {
		panic(undecided("package not found: " + rel))
	}
	return q
}

// fn resolves "Name" or "Type.Method" in a package of the module.
func (p *Program) fn(rel, name string) *ssa.Function {
	f := p.fnOpt(rel, name)
	if f == nil {
		panic(undecided("anchor not found: " + rel + "." + name))
	}
	return f
}

func (p *Program) fnOpt(rel, name string) *ssa.Function {
	q := p.pkg(rel)
	if i := strings.Index(name, "."); i >= 0 {
		tn := q.Type(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if sel := p.prog.MethodSets.MethodSet(t).Lookup(q.Pkg, name[i+1:]); sel != nil {
				return p.prog.MethodValue(sel)
			}
		}
		return nil
	}
	return q.Func(name)
}

func (p *Program) typ(rel, name string) types.Type {
	tn := p.pkg(rel).Type(name)
	if tn == nil {
		panic(undecided("type not found: " + rel + "." + name))
	}
	return tn.Type()
}

// allFuncs: every function with a body in the module, closures included.
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var rels []string
	for r := range p.pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		q := p.pkgs[r]
		var names []string
		for n := range q.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := q.Members[n].(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					add(m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == q {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

func (p *Program) engine() *Engine {
	e := newEngine(p.prog, modPath)
	p.globals(e)
	return e
}

// globals: package-level tables that are filled by the initialiser with
// constants and never written again.
func (p *Program) globals(e *Engine) {
	e.globMaps = map[*ssa.Global][]mapEntry{}
	e.globElems = map[*ssa.Global]map[int64]Val{}
	e.globConst = map[*ssa.Global]Val{}
	written := map[*ssa.Global]bool{}
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						// loads; a loaded map or slice must not be updated
						if mt := x.Type().Underlying(); mt != nil {
							if refersToWrite(x) {
								written[g] = true
							}
						}
					case *ssa.IndexAddr, *ssa.FieldAddr:
						if refersToWrite(x.(ssa.Value)) {
							written[g] = true
						}
					default:
						written[g] = true
					}
				}
			}
		}
	}
	for _, q := range p.pkgs {
		init := q.Func("init")
		if init == nil {
			continue
		}
		maps := map[ssa.Value][]mapEntry{}
		bad := map[ssa.Value]bool{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					k, ok1 := x.Key.(*ssa.Const)
					v, ok2 := x.Value.(*ssa.Const)
					if ok1 && ok2 {
						maps[x.Map] = append(maps[x.Map], mapEntry{constVal(k), constVal(v)})
					} else {
						bad[x.Map] = true
					}
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && !written[g] {
						if c, ok := x.Val.(*ssa.Const); ok {
							e.globConst[g] = constVal(c)
						}
						if el := literal(x.Val); el != nil {
							e.globElems[g] = el
						}
						if mm, ok := x.Val.(*ssa.MakeMap); ok && !bad[mm] {
							e.globMaps[g] = nil
							defer func(g *ssa.Global, mm ssa.Value) { e.globMaps[g] = maps[mm] }(g, mm)
						}
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if g, ok := ia.X.(*ssa.Global); ok && !written[g] {
							i, ok1 := ia.Index.(*ssa.Const)
							c, ok2 := x.Val.(*ssa.Const)
							if ok1 && ok2 {
								n, _ := constant.Int64Val(i.Value)
								if e.globElems[g] == nil {
									e.globElems[g] = map[int64]Val{}
								}
								e.globElems[g][n] = constVal(c)
							}
						}
					}
				}
			}
		}
	}
}

// literal: the elements of an array or slice built from constants.
func literal(v ssa.Value) map[int64]Val {
	var al *ssa.Alloc
	switch x := v.(type) {
	case *ssa.UnOp:
		al, _ = x.X.(*ssa.Alloc)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			al, _ = x.X.(*ssa.Alloc)
		}
	}
	if al == nil {
		return nil
	}
	pt, _ := al.Type().Underlying().(*types.Pointer)
	at := arrayOf(pt.Elem())
	if at == nil || at.Len() > 4096 {
		return nil
	}
	out := map[int64]Val{}
	for i := int64(0); i < at.Len(); i++ {
		out[i] = zeroVal(at.Elem())
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.IndexAddr:
			i, ok := y.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			n, _ := constant.Int64Val(i.Value)
			for _, r2 := range *y.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(y) {
					return nil
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil
				}
				out[n] = constVal(c)
			}
		case *ssa.UnOp, *ssa.Slice, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return out
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	if c.Value.Kind() == constant.Bool {
		return BoolVal{bconst(constant.BoolVal(c.Value))}
	}
	return sc(constTerm(c.Value, c.Type()))
}

func refersToWrite(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MapUpdate:
			return true
		case *ssa.Lookup, *ssa.UnOp, *ssa.DebugRef, *ssa.Range, *ssa.BinOp, *ssa.Index:
		case *ssa.IndexAddr:
			if refersToWrite(x) {
				return true
			}
		case *ssa.FieldAddr:
			if refersToWrite(x) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func (e *Engine) globalConst(addr *Term, typ types.Type) (Val, bool) {
	g, ok := addr.obj.(*ssa.Global)
	if !ok {
		return nil, false
	}
	v, ok := e.globConst[g]
	return v, ok
}

func (e *Engine) globalElem(addr *Term, typ types.Type) (Val, bool) {
	g, ok := addr.args[0].obj.(*ssa.Global)
	if !ok {
		return nil, false
	}
	els, ok := e.globElems[g]
	if !ok {
		return nil, false
	}
	pt, _ := g.Type().Underlying().(*types.Pointer)
	at, _ := pt.Elem().Underlying().(*types.Array)
	if at == nil {
		return nil, false
	}
	get := func(i int64) Val {
		if v, ok := els[i]; ok {
			return v
		}
		return zeroVal(typ)
	}
	if n, ok := addr.args[1].intVal(); ok && n >= 0 && n < at.Len() {
		return get(n), true
	}
	return nil, false
}

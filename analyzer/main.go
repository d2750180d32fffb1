package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "rows" {
		dbgRows()
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	}
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ...cut"
	}
	return s
}

func dump(args []string) {
	dir := "/repo"
	if d := os.Getenv("REPO"); d != "" {
		dir = d
	}
	p, err := loadProgram(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e := p.engine()
	parts := strings.SplitN(args[0], ":", 2)
	if os.Getenv("STEP") != "" {
		step := p.stepFn()
		f0 := p.fn(parts[0], parts[1])
		e.opaque = func(f *ssa.Function) bool { return f != f0 && step(f) }
	}
	if os.Getenv("SRC") != "" {
		src := p.sourceFn()
		f0 := p.fn(parts[0], parts[1])
		e.opaque = func(f *ssa.Function) bool { return f != f0 && src(f) }
	}
	if o := os.Getenv("OPQ"); o != "" {
		e.opaque = func(f *ssa.Function) bool { return f.Name() == o }
	}
	fn := p.fn(parts[0], parts[1])
	st := newState()
	ps := e.symParams(fn)
	if len(args) > 1 {
		if args[1] == "all" {
			for _, w := range p.worlds() {
				fmt.Println(w.name)
			}
		}
		for _, w := range p.worlds() {
			if w.name == args[1] {
				st = w.st
				ps[0] = sc(w.ens)
				e.opaque = func(f *ssa.Function) bool { return p.treeFn(f) }
			}
		}
	}
	v, g, _, rets := e.Run(fn, ps, bd.T, st)
	fmt.Println("result", cut(vstr(v), 600), "guard", cut(bstr(g), 600))
	for _, r := range rets {
		fmt.Println("  ret", p.prog.Fset.Position(r.pos).Line, "when", cut(bstr(r.g), 600), "=", cut(vstr(r.val), 600))
	}
	for _, x := range e.effects {
		if (x.kind == "index" || x.kind == "slice") && os.Getenv("IDX") == "" {
			continue
		}
		ls := ""
		for _, l := range x.loops {
			ls += " " + l.id
		}
		fmt.Printf("%s line %d [%s] gor %d %s addr=%v val=%s\n", x.kind, p.prog.Fset.Position(x.pos).Line, ls, x.gor, x.name, x.addr, cut(vstr(x.val), 400))
		fmt.Printf("      guard %s\n", cut(bstr(x.guard), 400))
		for _, a := range x.args {
			fmt.Printf("      arg %s\n", cut(vstr(a), 300))
		}
	}
	for id, l := range e.loopByID {
		fmt.Printf("LOOP %s gor %d entry %s back %s exits %s\n", id, l.gor, cut(bstr(l.entry), 300), cut(bstr(l.back), 300), func() string {
			s := ""
			for _, x := range l.exits {
				s += " / " + cut(bstr(x), 300)
			}
			return s
		}())
		for _, q := range append(l.phis, l.mem...) {
			fmt.Printf("     phi %s addr %v sym %v ivc %v init %s next %s\n", q.name, q.addr, q.sym, q.ivc, cut(vstr(q.init), 200), cut(vstr(q.next), 300))
		}
	}
}

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}

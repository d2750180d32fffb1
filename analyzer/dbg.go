package main

import "fmt"

func dbgRows() {
	p, err := loadProgram(repoDir())
	if err != nil {
		panic(err)
	}
	for _, w := range p.worlds() {
		for _, en := range []string{"PredictSingle", "Predict", "PredictCSR", "PredictDense"} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Println(w.name, en, "PANIC", r)
					}
				}()
				r := p.ensembleRun(w, en)
				fmt.Printf("%s %s kind=%s G=%v O=%v n=%s nRows=%v result=%v err=%s\n", w.name, en, r.kind, r.G, r.O, cut(vstr(r.n), 80), r.nRows, r.result, r.loadErr)
				for _, g := range r.rows {
					lid := "-"
					if g.loop != nil {
						lid = g.loop.id
					}
					fmt.Printf("    gor=%d loop=%s r=%v reads=%d stores=%d t=%d fills=%d\n", g.gor, lid, g.r, len(g.reads), len(g.stores), len(g.tcalls), len(g.fills))
				}
			}()
		}
	}
}

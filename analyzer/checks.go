package main

import (
	"fmt"
	"os"
	"time"
)

type check struct {
	id      string
	level   string
	explain string
	run     func(p *Program, c *Ctx)
	assume  []string
}

var checks []check

func reg(id string, run func(p *Program, c *Ctx), explain string, assume ...string) {
	checks = append(checks, check{id: id, level: "other", run: run, explain: explain, assume: assume})
}

func runCheck(id, tier string) int {
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	for _, k := range checks {
		if k.id != id {
			continue
		}
		p, err := loadProgram(repoDir())
		c := newCtx(p, id, tier)
		if err != nil {
			c.p = &Program{dir: repoDir()}
			c.violate("load", nil, 0, "the source cannot be analysed: %v", err)
			return c.finish(verif, k.level, k.explain, start)
		}
		c.assume = k.assume
		c.guarded("check", nil, func() { k.run(p, c) })
		return c.finish(verif, k.level, k.explain, start)
	}
	fmt.Println("unknown check", id)
	return 1
}

const (
	asmInts  = "int, int64 and lengths do not overflow: sizes and indices are mathematical integers; conversions between widths are kept as operators"
	asmFloat = "floating-point expressions are compared as formulas (sums up to reordering of the summands); rounding is not bounded"
	asmAlias = "different parameters of an entry point do not overlap in memory, as the API presupposes"
	asmShape = "transformations have the sizes the loaders give them (established by C16 and C17): logistic and exponential one output, softmax and raw as many as raw outputs, leaf index raw outputs times trees"
	symText  = "Path-sensitive dataflow over the SSA form: the entry points are evaluated symbolically for every combination of model type, transformation and wrapping (interface calls resolved per combination, module callees inlined), with guards as decision diagrams over normalised linear atoms, loops summarised by induction variables and loop-carried values, and goroutines as regions. "
)

func init() {
	reg("C02", ruleRowWrites, symText+"Rule: every store to the result made for row r has an index in [r*K,(r+1)*K), the stores of a row cover all K cells, the row loops cover 0..N-1, and no other store reaches the result.", asmInts, asmAlias, asmShape)
	reg("C03", ruleParallel, symText+"Rule: the rows handled by all workers tile 0..N-1 exactly once for every thread count; memory written by a worker is its own or its rows' part of the result; WaitGroup Add/Done/Wait, channel send/close/receive and captured variables follow a protocol that excludes races, deadlock and early return.", asmInts, asmAlias, asmShape, "the go statement, channels and sync.WaitGroup behave as the Go memory model says")
	reg("C04", ruleSparse, symText+"Rule: every explicit entry j of row r (indptr[r]<=j<indptr[r+1]) is stored at its column when the column exists, before the row is evaluated; every cell of the scratch row has the model's default value when the row starts (filled completely, or exactly the cells set for the previous row are reset).", asmInts, asmAlias, asmShape, "row pointers do not decrease and column numbers are not negative")
	reg("C05", ruleArgs, symText+"Rule: the guard of every result store, tree evaluation and transformation implies that the arguments fit; the guard of every error return (or constant 0) implies that they do not.", asmInts, asmAlias, asmShape)
	reg("C06", ruleEstimators, symText+"Rule: the loops over trees run over exactly min(n, all) trees when 0<n and all otherwise, the same number divides an average, and metadata methods count trees and outputs of the same lists.", asmInts, asmAlias, asmShape)
	reg("C07", ruleScores, symText+"Rule: the value accumulated for output k is split into summands; the constant part enters once, the tree (estimator i, output k) is number i*K+k of the model's list and enters once with its own weight (and the common factor 1/n of an averaging model), a linear model contributes weight[i*K+k]*feature i for every i plus its bias.", asmInts, asmFloat, asmAlias, asmShape)
	reg("C08", ruleLeaves, symText+"Rule: the leaf index returned by tree i*K+k is stored at position k*n+i of the row, for all i and k; the leaf counts are laid out the same way.", asmInts, asmAlias, asmShape)
}

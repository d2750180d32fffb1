package main

// Bookkeeping of one check: obligations, violations, evidence.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule  string `json:"rule"`
	Where string `json:"where"` // function
	Pos   string `json:"pos"`
	What  string `json:"what"`
	Key   string `json:"key"` // stable identity: rule, function, construct
}

type Ctx struct {
	p        *Program
	prop     string
	tier     string
	obl      map[string]int
	ok       map[string]int
	funcs    map[string]bool
	samples  map[string][]string
	viol     []Violation
	seen     map[string]bool
	notes    []string
	extra    map[string]int
	assume   []string
	worldTag string
	part     string
	only     map[string]bool // rules of interest, nil: all
}

func newCtx(p *Program, prop, tier string) *Ctx {
	return &Ctx{p: p, prop: prop, tier: tier, obl: map[string]int{}, ok: map[string]int{}, funcs: map[string]bool{}, samples: map[string][]string{}, seen: map[string]bool{}, extra: map[string]int{}}
}

func (c *Ctx) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := c.p.prog.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(c.p.dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modPath, "leaves")
}

// must records one obligation.
func (c *Ctx) must(ok bool, rule string, fn *ssa.Function, pos token.Pos, format string, args ...interface{}) bool {
	c.analysed(fn)
	if c.only != nil && !c.only[rule] {
		return ok
	}
	c.obl[rule]++
	if ok {
		c.ok[rule]++
		if len(c.samples[rule]) < 3 {
			s := fname(fn) + " " + c.pos(pos)
			c.samples[rule] = append(c.samples[rule], s)
		}
		return true
	}
	c.violate(rule, fn, pos, format, args...)
	return false
}

func (c *Ctx) analysed(fn *ssa.Function) {
	if fn != nil {
		c.funcs[fname(fn)] = true
	}
}

func (c *Ctx) violate(rule string, fn *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	if c.only != nil && !c.only[rule] && !strings.HasPrefix(format, "the analysis ") {
		return
	}
	msg := fmt.Sprintf(format, args...)
	v := Violation{Rule: rule, Where: fname(fn), Pos: c.pos(pos), What: msg}
	key := msg
	if i := strings.Index(key, " @@"); i >= 0 {
		key = key[:i]
		v.What = strings.Replace(msg, " @@", "; ", 1)
	}
	v.Key = fmt.Sprintf("%s|%s|%s", rule, fname(fn), key)
	if c.worldTag != "" {
		v.What += " [" + c.worldTag + "]"
	}
	if c.seen[v.Key+v.Pos] {
		return
	}
	c.seen[v.Key+v.Pos] = true
	c.viol = append(c.viol, v)
}

// guarded runs one rule; an analysis that cannot decide is a violation, never
// silence.
func (c *Ctx) guarded(rule string, fn *ssa.Function, f func()) {
	defer func() {
		if r := recover(); r != nil {
			pos := token.NoPos
			if fn != nil {
				pos = fn.Pos()
			}
			if u, ok := r.(undecided); ok {
				c.violate(rule, fn, pos, "the analysis cannot decide this construct @@%s", string(u))
				return
			}
			if os.Getenv("LC_DEBUG") != "" {
				debug.PrintStack()
			}
			c.violate(rule, fn, pos, "the analysis failed on this construct @@%v", r)
		}
	}()
	f()
}

// floor: a rule that found nothing to judge has not judged anything.
func (c *Ctx) floor(rule string, n int) {
	if c.obl[rule] < n {
		c.violate(rule, nil, token.NoPos, "nothing to analyse: %d obligations found, at least %d expected", c.obl[rule], n)
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func (c *Ctx) finish(verif, level, rule string, start time.Time) int {
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known_findings.json:", err)
			return 1
		}
	}
	var bad []Violation
	for _, v := range c.viol {
		known := false
		for _, k := range kf.Findings {
			if k.Property == c.prop && k.Key == v.Key {
				known = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
				break
			}
		}
		if !known {
			bad = append(bad, v)
		}
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Key < bad[j].Key })
	total, discharged := 0, 0
	cov := map[string]interface{}{}
	rules := map[string]interface{}{}
	var names []string
	for r := range c.obl {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		total += c.obl[r]
		discharged += c.ok[r]
		rules[r] = map[string]interface{}{"obligations": c.obl[r], "discharged": c.ok[r], "at": c.samples[r]}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov["obligations"] = total
	cov["discharged"] = discharged
	cov["rules"] = rules
	cov["functions"] = fns
	cov["explanation"] = rule
	cov["checker_cmd"] = "leavescheck check " + c.prop
	cov["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa", "the analyzer's own transfer functions", "the axioms listed under assumptions"}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad)}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(ev)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.prop+".json"), buf.Bytes(), 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions\n", c.prop, total, discharged, len(fns))
	if len(bad) == 0 {
		return 0
	}
	rep := filepath.Join("evidence", c.prop+".violations.json")
	b, _ := json.MarshalIndent(bad, "", " ")
	os.WriteFile(filepath.Join(verif, rep), b, 0o644)
	for i, v := range bad {
		if i > 20 {
			break
		}
		fmt.Printf("  %s %s in %s: %s\n", v.Rule, v.Pos, v.Where, cut(v.What, 700))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rep)
	return 1
}

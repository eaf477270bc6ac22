package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *Run)
	// Driver adds the driver of histories to the program.
	Driver bool
}

// Run is one run of a check.
type Run struct {
	p       *Program
	check   *Check
	tier    string
	obls    int
	fails   []Fail
	funcs   map[string]bool
	sites   map[string]bool
	cells   int
	notes   map[string]int
	samples []interface{}
	assume  []string
	engines map[bool]*base
	want    map[string]int // instance counts that must not fall short
}

type base struct {
	e *Engine
	s *State
}

// Fail is an obligation that was not discharged.
type Fail struct {
	Key, Where, Msg string
}

// ob records an obligation.
func (c *Run) ob(ok bool, key, where, format string, args ...interface{}) bool {
	c.obls++
	if !ok {
		c.fails = append(c.fails, Fail{key, where, fmt.Sprintf(format, args...)})
	}
	return ok
}

func (c *Run) sample(format string, args ...interface{}) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

// eng is an engine with the package variables initialised. Range loops over
// maps during initialisation are interpreted in both orders by checks that
// ask for it.
func (c *Run) eng() (*Engine, *State) { return c.engDir(false) }

func (c *Run) engDir(rev bool) (*Engine, *State) {
	b, ok := c.engines[rev]
	if !ok {
		e, s := c.p.engine(rev)
		b = &base{e, s}
		c.engines[rev] = b
		n := c.obls
		c.collect(e, e.log, "package initialisation", true)
		c.notes["initialisation obligations"] += c.obls - n
		c.obls = n + len(c.fails)
	}
	b.e.log = newLog()
	return b.e, b.s.fork()
}

// collect turns what the interpreter reported into obligations. With panics
// false, panics are left to another property (C13).
func (c *Run) collect(e *Engine, l *Log, what string, panics bool) {
	seen := map[string]bool{}
	for _, f := range l.findings {
		if (f.Kind == "panic" || f.Kind == "termination") && !panics {
			continue
		}
		where := e.pos(f.Site)
		msg := fmt.Sprintf("%s: %s: %s", what, f.Kind, f.Msg)
		k := where + f.Kind
		if seen[k] {
			continue
		}
		seen[k] = true
		c.ob(false, f.Kind, where, "%s", msg)
	}
	if panics {
		for _, ok := range l.obls {
			if ok {
				c.obls++
			}
		}
	}
	for fn := range e.funcsSeen {
		c.funcs[fn.String()] = true
	}
	for in := range e.callsSeen {
		c.sites[e.siteKey(in)] = true
	}
	for m, n := range e.modelsUsed {
		c.notes["model "+m] += n
	}
}

func (c *Run) pos(fn *ssa.Function) string {
	q := c.p.prog.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d (%s)", relPath(q.Filename), q.Line, fn.RelString(nil))
}

// function finds an exported function; its absence is a failure.
func (c *Run) function(pkg, name string) *ssa.Function {
	fn := c.p.fn(pkg, name)
	if fn == nil {
		c.ob(false, "anchor", pkg+"."+name, "function %s.%s not found", pkg, name)
		return nil
	}
	return fn
}

// results lists the integer results of an outcome; truth values become 0, 1
// by splitting the state.
func results(s *State, v Value) []struct {
	S *State
	L []Lin
	E string
} {
	type R = struct {
		S *State
		L []Lin
		E string
	}
	vs, ok := v.(VTuple)
	if !ok {
		vs = VTuple{v}
	}
	outs := []R{{S: s}}
	for _, x := range vs {
		var next []R
		for _, o := range outs {
			switch x := x.(type) {
			case VInt:
				next = append(next, R{o.S, append(o.L[:len(o.L):len(o.L)], x.L), o.E})
			case VBool:
				y, n := o.S.split(x.C)
				if y != nil {
					next = append(next, R{y, append(o.L[:len(o.L):len(o.L)], konst(1)), o.E})
				}
				if n != nil {
					next = append(next, R{n, append(o.L[:len(o.L):len(o.L)], konst(0)), o.E})
				}
			default:
				next = append(next, R{o.S, o.L, "result " + o.S.valStr(x) + " not determined"})
			}
		}
		outs = next
	}
	return outs
}

// scalar checks a function of integers against an oracle, for every value of
// the parameters: the oracle is f on doms, and def if a parameter is outside.
func (c *Run) scalar(fn *ssa.Function, doms []ISet, f func(v []int64) []int64, def []int64) {
	if fn == nil {
		return
	}
	e, s := c.eng()
	var syms []Lin
	var args []Value
	for _, p := range fn.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || typeDom(b) == nil {
			c.ob(false, "signature", c.pos(fn), "parameter %s of %s is not an integer", p.Name(), fn.Name())
			return
		}
		x := symLin(e.newSym(p.Name(), typeDom(b)))
		syms = append(syms, x)
		args = append(args, VInt{x})
	}
	if len(args) != len(doms) {
		c.ob(false, "signature", c.pos(fn), "%s has %d parameters", fn.Name(), len(args))
		return
	}
	outs := e.call(s, fn, args, nil, nil)
	c.collect(e, e.log, fn.Name(), true)
	for _, o := range outs {
		for _, r := range results(o.S, o.V) {
			c.cells++
			if !c.ob(r.E == "", "result", c.pos(fn), "%s: %s when %s", fn.Name(), r.E, r.S.describe()) {
				continue
			}
			if len(r.L) != len(def) {
				c.ob(false, "signature", c.pos(fn), "%s has %d results", fn.Name(), len(r.L))
				return
			}
			c.cell(fn, r.S, syms, r.L, doms, 0, f, def)
		}
	}
	c.ob(len(outs) > 0, "vacuous", c.pos(fn), "%s has no outcome", fn.Name())
}

// cell checks the results in one cell, splitting it by the oracle's domains.
func (c *Run) cell(fn *ssa.Function, s *State, syms, res []Lin, doms []ISet, i int, f func(v []int64) []int64, def []int64) {
	if i < len(syms) {
		y, n := s.splitIn(syms[i], doms[i])
		if n != nil {
			for j, l := range res {
				if y != nil || n != nil {
					vs := n.values(l)
					c.ob(vs.Equal(ivSet(def[j], def[j])), "value", c.pos(fn), "%s: result %d is in %s when %s, want %#x", fn.Name(), j, vs, n.describe(), def[j])
				}
			}
		}
		if y != nil {
			c.cell(fn, y, syms, res, doms, i+1, f, def)
		}
		return
	}
	k := len(syms)
	bad := s.pointwise(append(append([]Lin{}, syms...), res...), func(v []int64) bool {
		w := f(v[:k])
		for j := range w {
			if w[j] != v[k+j] {
				return false
			}
		}
		return true
	})
	ex := ""
	if bad != "" {
		ex = bad
	}
	c.ob(bad == "", "value", c.pos(fn), "%s: wrong result in the cell %s, e.g. (arguments and results) %s", fn.Name(), s.describe(), ex)
	if bad == "" {
		c.sample("%s agrees with the oracle for all of: %s", fn.Name(), s.describe())
	}
}

// ---- running and reporting ----

var checks = map[string]*Check{}

func register(id, level, rule string, run func(c *Run)) {
	checks[id] = &Check{ID: id, Level: level, Rule: rule, Run: run}
}

// limit bounds the time of one check; what is not decided by then counts as
// not discharged.
const limit = 600 * time.Second

type known struct {
	prop, key, text string
}

// readKnown reads the findings that are recorded, not repaired:
// "finding: property=<id> where=<where> key=<key> <text>".
func readKnown(dir string) []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(f) == 3 {
			out = append(out, known{f[0], strings.TrimPrefix(f[1], "id="), f[2]})
		}
	}
	return out
}

func (f Fail) id() string {
	return f.Key + "@" + strings.ReplaceAll(f.Where, " ", "")
}

func runCheck(id, tier, verif string) int {
	t0 := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Printf("no check for %s\n", id)
		return 2
	}
	c := &Run{check: ck, tier: tier, funcs: map[string]bool{}, sites: map[string]bool{}, notes: map[string]int{}, engines: map[bool]*base{}}
	p, err := load(ck.Driver)
	if err != nil {
		c.ob(false, "load", repoDir, "%v", err)
	} else {
		c.p = p
		p.deadline = t0.Add(limitFor())
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("HG_PANIC") != "" {
						panic(r)
					}
					c.ob(false, "analyser", repoDir, "analysis not completed: %v", r)
				}
			}()
			ck.Run(c)
		}()
	}
	// Known findings.
	var fails []Fail
	for _, f := range c.fails {
		listed := false
		for _, k := range readKnown(verif) {
			if k.prop == id && k.key == f.id() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				listed = true
				break
			}
		}
		if !listed {
			fails = append(fails, f)
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed(), "level": ck.Level,
		"wall_s": time.Since(t0).Seconds(), "violations": len(fails),
		"assumptions": append([]string{
			"Go semantics as in the SSA form golang.org/x/tools/go/ssa builds from the type-checked source (linux/amd64, 64-bit int)",
			"lengths and capacities stay below 2^48, so that sums of a few of them do not overflow; allocation succeeds",
			"functions of other packages behave as modelled (coverage.models)",
		}, c.assume...),
	}
	cov := map[string]interface{}{
		"obligations": c.obls, "discharged": c.obls - len(c.fails),
		"checker_cmd":  "bin/hgverify check " + id,
		"trusted_base": []string{"this analyser (analyzer/*.go)", "golang.org/x/tools/go/packages and go/ssa", "reference data in analyzer/oracle", "models of standard library functions listed under models"},
		"rule":         ck.Rule, "cells": c.cells, "functions": keys(c.funcs), "functions_count": len(c.funcs), "call_sites": len(c.sites),
		"samples": c.samples,
	}
	models := []string{}
	for n := range c.notes {
		if strings.HasPrefix(n, "model ") {
			models = append(models, strings.TrimPrefix(n, "model "))
		}
	}
	sort.Strings(models)
	cov["models"] = models
	if ck.Level == "other" {
		cov["explanation"] = ck.Rule
	}
	for n, k := range c.notes {
		if !strings.HasPrefix(n, "model ") {
			cov[n] = k
		}
	}
	ev["coverage"] = cov
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	if len(fails) == 0 {
		fmt.Printf("%s: held: %d obligations discharged in %d functions, %d cells (%.1fs)\n", id, c.obls-len(c.fails), len(c.funcs), c.cells, time.Since(t0).Seconds())
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "replay"), 0o755)
	rp := filepath.Join(verif, "replay", id+".txt")
	var w strings.Builder
	fmt.Fprintf(&w, "property %s: %d of %d obligations not discharged\nrule: %s\n", id, len(fails), c.obls, ck.Rule)
	for _, f := range fails {
		fmt.Fprintf(&w, "\n[%s] %s\n  %s\n", f.Key, f.Where, f.Msg)
	}
	os.WriteFile(rp, []byte(w.String()), 0o644)
	for i, f := range fails {
		if i == 5 {
			fmt.Printf("  .. %d more in %s\n", len(fails)-i, rp)
			break
		}
		fmt.Printf("  [%s] %s: %s\n", f.Key, f.Where, trunc(f.Msg, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + ".."
	}
	return s
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 0
	}
	return n
}

func limitFor() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("HG_LIMIT")); err == nil {
		return time.Duration(n) * time.Second
	}
	return limit
}

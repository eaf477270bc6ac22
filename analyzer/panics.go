package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C13: no panic, and every loop ends.

// oneShot lists the exported functions of a package, methods excluded.
func (p *Program) oneShot(path string) []*ssa.Function {
	var out []*ssa.Function
	sp := p.pkg(path)
	if sp == nil {
		return nil
	}
	for n, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if ok && fn.Object() != nil && fn.Object().Exported() && n != "init" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// anyArg is an arbitrary argument of a type.
func (c *Run) anyArg(e *Engine, s *State, name string, t types.Type) (Value, *Seq, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if d := typeDom(u); d != nil {
			return VInt{symLin(e.newSym(name, d))}, nil, true
		}
		if u.Kind() == types.Bool {
			x := symLin(e.newSym(name, ivSet(0, 1)))
			return VBool{Cond{CEq, x.AddC(-1)}}, nil, true
		}
		if u.Info()&types.IsString != 0 {
			v, q := symString(e, name)
			return v, q, true
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			q := symBytes(e, name)
			return c.input(e, s, name, q), q, true
		}
	}
	return nil, nil, false
}

// safe interprets fn for arbitrary arguments. The homomorphisms help to find
// loop invariants.
func (c *Run) safe(fn *ssa.Function, hs ...*Hom) {
	e, s := c.eng()
	var args []Value
	for _, p := range fn.Params {
		v, q, ok := c.anyArg(e, s, p.Name(), p.Type())
		if !c.ob(ok, "signature", c.pos(fn), "parameter %s of %s has a type not foreseen: %s", p.Name(), fn.Name(), p.Type()) {
			return
		}
		args = append(args, v)
		if q == nil {
			continue
		}
		for _, h := range hs {
			e.targets = append(e.targets, target{h, q})
		}
	}
	k := len(c.run(e, s, fn, args, true))
	c.ob(k > 0, "vacuous", c.pos(fn), "%s has no outcome", fn.Name())
	c.sample("%s%s: %d outcomes, no panic", fn.Name(), fn.Signature.Params(), k)
	// nil for every slice.
	nils := false
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			args[i] = nilSlice()
			nils = true
		}
	}
	if nils {
		e, s := c.eng()
		k := len(c.run(e, s, fn, args, true))
		c.ob(k > 0, "vacuous", c.pos(fn), "%s(nil) has no outcome", fn.Name())
	}
}

func checkPanics(c *Run) {
	n := 0
	for _, path := range []string{"", "hanja"} {
		for _, fn := range c.p.oneShot(path) {
			n++
			var hs []*Hom
			if path == "hanja" {
				h := readingHom(oracle().hanja)
				b := *h
				b.InRunes, b.OutRunes = false, false
				hs = []*Hom{h, &b}
			}
			c.safe(fn, hs...)
		}
	}
	for name, hs := range map[string][]*Hom{"From": {decodeHom()}, "To": {encodeHom(false), encodeHom(true)}} {
		if fn := c.function("cp949", name); fn != nil {
			n++
			c.safe(fn, hs...)
		}
	}
	c.ob(n >= 20, "vacuous", "packages", "only %d exported functions", n)
	c.notes["exported functions"] = n
}

func init() {
	register("C13", "proof", "every exported function is interpreted for arbitrary arguments (slices and strings of any length and content): every index, slice bound, conversion, dereference and type assertion must be safe on all paths, and every loop must have a bounded measure that grows", checkPanics)
}

package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C22: the encoding as a plug-in of x/text.

// xtextType finds an exported type of x/text/encoding.
func (c *Run) xtextType(path, name string) types.Type {
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func checkEncoding(c *Run) {
	fn := c.function("cp949", "NewCP949Encoding")
	if fn == nil {
		return
	}
	pt := fn.Signature.Results().At(0).Type()
	iface := c.xtextType("golang.org/x/text/encoding", "Encoding")
	if c.ob(iface != nil, "anchor", "golang.org/x/text/encoding", "type Encoding not found") {
		c.ob(types.Implements(pt, iface.Underlying().(*types.Interface)), "implements", c.pos(fn), "%s does not implement encoding.Encoding", pt)
	}
	// From the constructor and as a new value.
	for _, how := range []string{"NewCP949Encoding()", "new(CP949Encoding)"} {
		for _, d := range []struct {
			ctor    string
			in, out string
		}{{"NewDecoder", "a\xb0\xa1", "a가"}, {"NewEncoder", "a가", "a\xb0\xa1"}} {
			e, s := c.eng()
			var enc Value
			ok := true
			if how == "NewCP949Encoding()" {
				s, enc, _, ok = c.encoding(e, s)
			} else {
				p, isPtr := pt.(*types.Pointer)
				if !isPtr {
					continue
				}
				enc = e.allocType(s, p.Elem(), "new")
			}
			if !ok {
				continue
			}
			for _, nth := range []string{"first", "second"} {
				var tr VIface
				s, tr, ok = c.transformerOf(e, s, enc, pt, d.ctor)
				if !ok {
					break
				}
				m := c.method(tr.T, "Transform")
				r := c.method(tr.T, "Reset")
				if !c.ob(m != nil && r != nil, "anchor", tr.T.String(), "Transform or Reset is missing") {
					break
				}
				if p, isPtr := tr.V.(VPtr); isPtr {
					c.ob(p.O != 0, "nil", c.pos(m), "the transformer of the %s %s is a nil pointer", nth, d.ctor)
				}
				if _, isNil := tr.V.(VNil); isNil {
					c.ob(false, "nil", c.pos(m), "the transformer of the %s %s is a nil pointer", nth, d.ctor)
				}
				// Ready to use and of the right direction.
				src := e.literal(s, d.in)
				dst := e.literal(s, strings.Repeat("\x00", 16))
				outs := c.run(e, s.fork(), m, []Value{tr.V, dst, src, boolVal(true)}, true)
				c.ob(len(outs) > 0, "vacuous", c.pos(m), "no outcome")
				for _, o := range outs {
					tu := o.V.(VTuple)
					n, _ := lin(tu[0])
					k, _ := lin(tu[1])
					got := ""
					for _, x := range e.content(o.S, VSlice{O: dst.O, Len: n}) {
						got = x.S.ropeStr(x.R)
						c.ob(x.S.ropeEq(x.R, constRope(d.out)) && o.S.entailsEq(k, konst(int64(len(d.in)))) && errKind(o.S, tu[2]) == "nil", "direction", c.pos(m), "the transformer of the %s %s on %s converts %q to %s, error %s", nth, d.ctor, how, d.in, got, o.S.valStr(tu[2]))
					}
					c.sample("%s.%s, %s: %q becomes %s", how, d.ctor, nth, d.in, got)
				}
			}
		}
	}
	for _, d := range []struct {
		ctor string
		dec  bool
	}{{"NewDecoder", true}, {"NewEncoder", false}} {
		changed := c.transform(d.ctor, d.dec, func(*transform, SV) {})
		c.resets(d.ctor, changed)
	}
	// No state shared between the transformers.
	a := c.effects()
	c.sharedResults(a)
	c.handedOut(a)
	c.sharedWrites(a, true)
}

// literal is a byte slice with a given content.
func (e *Engine) literal(s *State, t string) VSlice {
	o := s.alloc(&Obj{kind: oArr, origin: origInput, name: fmt.Sprintf("%q", t), rope: constRope(t)})
	return VSlice{O: o, Len: konst(int64(len(t)))}
}

// resets: Reset gives a transformer in any state its initial state back.
func (c *Run) resets(ctor string, changed map[string]bool) {
	e, s := c.eng()
	s, tr, ok := c.transformer(e, s, ctor)
	if !ok {
		return
	}
	m := c.method(tr.T, "Reset")
	if !c.ob(m != nil, "anchor", tr.T.String(), "no method Reset") {
		return
	}
	own(s, tr)
	initial := s.fork()
	e.havocParts(s, tr, changed)
	outs := c.run(e, s, m, []Value{tr.V}, true)
	c.ob(len(outs) > 0, "vacuous", c.pos(m), "Reset has no outcome")
	for _, o := range outs {
		left := map[string]bool{}
		e.changedParts(initial, o.S, tr, left)
		old := map[string]Value{}
		parts(initial, tr, func(path string, _ ObjID, _ []int, v Value) { old[path] = v })
		parts(o.S, tr, func(path string, _ ObjID, _ []int, v Value) {
			if !left[path] {
				return
			}
			// An empty slice is as good as another.
			x, ok1 := v.(VSlice)
			y, ok2 := old[path].(VSlice)
			if ok1 && ok2 && o.S.entailsEq(x.Len, Lin{}) && initial.entailsEq(y.Len, Lin{}) {
				return
			}
			c.ob(false, "reset", c.pos(m), "after Reset, the part %s of the transformer is %s, initially %s", path, o.S.valStr(v), initial.valStr(old[path]))
		})
		c.obls++
	}
}

// sharedResults: what a method returns shares no changing memory with its
// receiver.
func (c *Run) sharedResults(a *alias) {
	written := map[*aobj]bool{}
	for _, ev := range a.sorted("write") {
		for l := range ev.locs {
			written[l.o] = true
		}
	}
	for _, en := range a.entries {
		if en.method == "" {
			continue
		}
		own := map[*aobj]bool{}
		reach(en.recv, func(l aloc) { own[l.o] = true })
		rs := en.fr.fn.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			open := map[*aobj]bool{}
			a.access(en.fr.ret, fmt.Sprintf("#%d;", j), rs.At(j).Type(), "", func(l aloc, t types.Type, what string) {
				if t == nil || !zeroSize(t) {
					open[l.o] = true
				}
			}, nil)
			seen := map[*aobj]bool{}
			reach(en.fr.ret.sub(fmt.Sprintf("#%d;", j)), func(l aloc) {
				c.obls++
				if !own[l.o] || seen[l.o] || l.o.kind != akAlloc && l.o.kind != akUser || !memory(l) {
					return
				}
				seen[l.o] = true
				c.ob(!written[l.o] && !open[l.o], "shared result", c.pos(en.fr.fn), "the result of %s shares %s with its receiver, so with the result of another call", en.what, l.o.name)
			})
		}
	}
}

func init() {
	register("C22", "proof", "type check against encoding.Encoding; interpretation of the constructors, twice, from NewCP949Encoding and from a new value: the transformer is never nil and its Transform converts in its direction; Reset is interpreted from every state that Transform may leave and must restore the initial one; pointer analysis: no changing memory is shared between results", checkEncoding)
}

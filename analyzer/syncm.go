package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Deferred calls, and package sync.

func (e *Engine) deferKey() string { return fmt.Sprintf("defer:%d", e.depth) }

// deferCall notes a deferred call: the function and its arguments.
func (e *Engine) deferCall(s *State, in *ssa.Defer) bool {
	c := in.Common()
	var call VTuple
	if c.IsInvoke() {
		r, ok := s.val(c.Value).(VIface)
		if !ok {
			e.undecided(in, "deferred call of a method on %s", s.valStr(s.val(c.Value)))
			return false
		}
		fn := e.prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			e.undecided(in, "deferred call of %s", c.Method.Name())
			return false
		}
		call = VTuple{VFunc{F: fn}, r.V}
	} else {
		fv, ok := s.val(c.Value).(VFunc)
		if !ok {
			e.undecided(in, "deferred call of %s", s.valStr(s.val(c.Value)))
			return false
		}
		call = VTuple{fv}
	}
	for _, a := range c.Args {
		call = append(call, s.val(a))
	}
	old, _ := s.ghosts[e.deferKey()].(VTuple)
	s.ghosts[e.deferKey()] = append(append(VTuple{}, old...), call)
	return true
}

// runDefers runs what was deferred, last first.
func (e *Engine) runDefers(s *State, site ssa.Instruction) []*State {
	key := e.deferKey()
	calls, _ := s.ghosts[key].(VTuple)
	if len(calls) == 0 {
		return []*State{s}
	}
	call := calls[len(calls)-1].(VTuple)
	if len(calls) == 1 {
		delete(s.ghosts, key)
	} else {
		s.ghosts[key] = append(VTuple{}, calls[:len(calls)-1]...)
	}
	var out []*State
	for _, o := range e.apply(s, site, call[0].(VFunc), append([]Value{}, call[1:]...)) {
		out = append(out, e.runDefers(o.S, site)...)
	}
	return out
}

func init() {
	// A call of the function at the first Do of this history; that the result
	// is the same in every other is shown by C11.
	fnModels["(*sync.Once).Do"] = func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
		p, ok := args[0].(VPtr)
		f, ok2 := args[1].(VFunc)
		if !ok || !ok2 {
			e.undecided(site, "sync.Once.Do")
			return nil
		}
		key := fmt.Sprintf("once:%d:%v", p.O, p.Path)
		if _, done := s.ghosts[key]; done {
			return one(s, VTuple{})
		}
		s.ghosts[key] = boolVal(true)
		outs := e.apply(s, site, f, nil)
		for i := range outs {
			outs[i].V = VTuple{}
		}
		return outs
	}
	// A pooled value is as made by New, but for what its users leave in it:
	// integers, booleans, and the content and length of its byte slices.
	fnModels["(*sync.Pool).Get"] = func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
		p, ok := args[0].(VPtr)
		if !ok {
			return e.nilDeref(s, site, args[0])
		}
		st, ok := project(s.obj(p.O).val, p.Path).(VStruct)
		if !ok || len(st.F) == 0 {
			e.undecided(site, "sync.Pool.Get")
			return nil
		}
		f, ok := st.F[len(st.F)-1].(VFunc)
		if !ok {
			e.undecided(site, "sync.Pool without New")
			return nil
		}
		outs := e.apply(s, site, f, nil)
		var all []SV
		for _, o := range outs {
			x, ok := o.V.(VIface)
			q, isPtr := x.V.(VPtr)
			if !ok || !isPtr || len(q.Path) > 0 || q.Idx != nil {
				e.undecided(site, "sync.Pool of %s", o.S.valStr(o.V))
				continue
			}
			pt, ok := x.T.Underlying().(*types.Pointer)
			if !ok {
				e.undecided(site, "sync.Pool of %s", x.T)
				continue
			}
			used := o.S.fork()
			all = append(all, o) // just made
			m := used.mut(q.O)
			if m.kind == oCell {
				m.val = e.leftIn(used, m.val, pt.Elem())
			} else {
				m.rope = Rope{{K: pUnk, Ln: m.rope.Len()}}
			}
			m.origin = origGlobal
			all = append(all, SV{used, o.V})
		}
		return all
	}
	fnModels["(*sync.Pool).Put"] = nop
}

// leftIn is a value of type t after unknown use.
func (e *Engine) leftIn(s *State, v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return e.anyOf(s, t, "pooled")
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return v
		}
		n, k := symLin(e.freshLen("pooled len")), symLin(e.freshLen("pooled spare"))
		o := s.alloc(&Obj{kind: oArr, origin: origGlobal, name: "pooled", rope: Rope{{K: pUnk, Ln: n.Add(k)}}})
		return VSlice{O: o, Len: n}
	case *types.Struct:
		st, ok := v.(VStruct)
		if !ok {
			if b, ok := v.(VBuilder); ok {
				_ = b
				return VBuilder{Rope{{K: pUnk, Ln: symLin(e.freshLen("pooled"))}}}
			}
			return v
		}
		out := VStruct{make([]Value, len(st.F))}
		for i := range st.F {
			out.F[i] = e.leftIn(s, st.F[i], u.Field(i).Type())
		}
		return out
	}
	return v
}

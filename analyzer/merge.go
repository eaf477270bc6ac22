package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// liveIn computes the values live at the start of each block of a function
// (phis of the block included).
func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, x := range b.Succs {
				for v := range in[x] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == x {
						continue
					}
					live[v] = true
				}
				for pi, pr := range x.Preds {
					if pr != b {
						continue
					}
					for _, ins := range x.Instrs {
						p, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(p.Edges[pi]) {
							live[p.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); isPhi {
						continue
					}
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			for _, ins := range b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				// A phi is live if used anywhere.
				if rs := p.Referrers(); rs != nil && len(*rs) > 0 {
					live[p] = true
				}
			}
			if len(live) != len(in[b]) {
				again = true
				in[b] = live
			} else {
				for v := range live {
					if !in[b][v] {
						again = true
						in[b] = live
						break
					}
				}
			}
		}
	}
	e.live[fn] = in
	return in
}

// dropDead forgets registers that are not live at the start of b.
func (e *Engine) dropDead(s *State, b *ssa.BasicBlock) {
	live := e.liveIn(b.Parent())[b]
	f := s.frame
	n := 0
	for v := range f.regs {
		if live[v] {
			n++
		}
	}
	if n == len(f.regs) {
		return
	}
	regs := make(map[ssa.Value]Value, n)
	for v, x := range f.regs {
		if live[v] {
			regs[v] = x
		}
	}
	s.frame = &Frame{parent: f.parent, fn: f.fn, regs: regs}
}

// merge joins states at a join point which differ in one root only: either
// in nothing else, or in integers that are finite functions of that root.
func (e *Engine) merge(ins []*State, at *ssa.BasicBlock) []*State {
	if at != nil {
		for _, s := range ins {
			e.dropDead(s, at)
		}
	}
	if len(ins) < 2 {
		return ins
	}
	buckets := map[string][]*State{}
	var order []string
	for _, s := range ins {
		k := s.shapeKey()
		if _, ok := buckets[k]; !ok {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], s)
	}
	var out []*State
	for _, k := range order {
		b := buckets[k]
		if len(b) == 1 {
			out = append(out, b[0])
			continue
		}
		out = append(out, e.mergeBucket(b)...)
	}
	return out
}

// shapeKey identifies everything about a state but intervals of roots and
// values of integers in live registers.
func (s *State) shapeKey() string {
	k := ""
	for f := s.frame; f != nil; f = f.parent {
		if f == s.frame {
			var ks []string
			for v, x := range f.regs {
				if _, ok := x.(VInt); ok {
					ks = append(ks, v.Name()+"=int")
				} else {
					ks = append(ks, v.Name()+"="+s.valKey(x))
				}
			}
			sortStrings(ks)
			k += fmt.Sprint(ks)
		} else {
			k += fmt.Sprintf("|%p", regsPtr(f))
		}
	}
	k += fmt.Sprintf("|c%d", len(s.cons))
	for _, c := range s.cons {
		k += "," + c.Key()
	}
	for _, o := range s.objIDs() {
		k += fmt.Sprintf("|%d:%p", o, s.heap[o])
	}
	var ks []string
	for f, l := range s.facts {
		ks = append(ks, f+"="+l.Key())
	}
	for g, v := range s.ghosts {
		ks = append(ks, g+"="+s.valKey(v))
	}
	for d, def := range s.defs {
		ks = append(ks, fmt.Sprintf("def%d>%d", d, def.root))
	}
	sortStrings(ks)
	return k + fmt.Sprint(ks)
}

func regsPtr(f *Frame) *Frame { return f }

func (e *Engine) mergeBucket(b []*State) []*State {
	var out []*State
	for _, s := range b {
		done := false
		for _, t := range out {
			if e.mergeInto(t, s) {
				done = true
				break
			}
			if len(out) > 64 {
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

// mergeInto adds the cell of s to t if that is possible.
func (e *Engine) mergeInto(t, s *State) bool {
	var root Sym = -1
	diff := 0
	check := func(r Sym) {
		if !t.rootSet(r).Equal(s.rootSet(r)) {
			if r != root {
				diff++
				root = r
			}
		}
	}
	for r := range t.iv {
		check(r)
	}
	for r := range s.iv {
		if _, ok := t.iv[r]; !ok {
			check(r)
		}
	}
	if diff > 1 {
		return false
	}
	// Which registers differ?
	var regs []ssa.Value
	for v, x := range t.frame.regs {
		a, ok := x.(VInt)
		if !ok {
			continue
		}
		y, ok := s.frame.regs[v].(VInt)
		if !ok {
			return false
		}
		if !a.L.Eq(y.L) {
			regs = append(regs, v)
		}
	}
	if diff == 0 {
		return len(regs) == 0
	}
	if _, f := t.rootOf(root); f != nil {
		return false
	}
	ts, ss := t.rootSet(root), s.rootSet(root)
	union := ts.Union(ss)
	if len(regs) > 0 {
		if union.Size() > tabLimit {
			return false
		}
		if !ts.Intersect(ss).Empty() {
			return false
		}
		type pair struct{ f, g func(int64) int64 }
		var ps []pair
		for _, v := range regs {
			f, ok1 := t.asFunc(t.frame.regs[v].(VInt).L, root)
			g, ok2 := s.asFunc(s.frame.regs[v].(VInt).L, root)
			if !ok1 || !ok2 {
				return false
			}
			ps = append(ps, pair{f, g})
		}
		t.iv[root] = union
		for i, v := range regs {
			p := ps[i]
			t.set(v, VInt{t.derived("joined "+v.Name(), root, t.memo(root, func(x int64) int64 {
				if ts.Has(x) {
					return p.f(x)
				}
				return p.g(x)
			}))})
		}
		return true
	}
	t.iv[root] = union
	return true
}

// asFunc is l as a function of root, if it is one.
func (s *State) asFunc(l Lin, root Sym) (func(int64) int64, bool) {
	if l.IsConst() {
		c := l.C
		return func(int64) int64 { return c }, true
	}
	rs := s.roots(l)
	if len(rs) != 1 || rs[0] != root {
		return nil, false
	}
	tf, ok := s.tab(l)
	if !ok {
		return nil, false
	}
	return tf.f, true
}

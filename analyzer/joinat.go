package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joinAt joins the states that arrive at a block and that have the same shape.
// All of them come from base; symbols from maxSym on are newer than it. It
// forgets what a loop invariant would forget too, to have fewer paths.
func (e *Engine) joinAt(fn *ssa.Function, b *ssa.BasicBlock, base *State, maxSym Sym, ins []*State, loopHead bool) []*State {
	e.nfresh++
	g := &generaliser{e: e, fn: fn, l: &loopT{head: b}, id: e.nfresh, asks: true, join: b != nil && !loopHead, pad: newPadding(),
		groups: map[string]*group{}, objFor: map[string]ObjID{}, tracked: map[ObjID]bool{}, maxSym0: maxSym}
	g.s0 = base.fork()
	e.dropDead(g.s0, b)
	var all []*State
	for _, s := range ins {
		all = append(all, g.decide(s)...)
	}
	if len(all) < 2 {
		return all
	}
	seen := map[ssa.Value]bool{}
	for _, s := range all {
		for v := range s.frame.regs {
			if !seen[v] {
				seen[v] = true
				g.live = append(g.live, v)
			}
		}
	}
	for v := range g.s0.frame.regs {
		if !seen[v] {
			return all
		}
	}
	sort.Slice(g.live, func(i, j int) bool { return g.live[i].Name() < g.live[j].Name() })
	g.known = mentioned(g.s0)
	g.parents = g.reach(g.s0, true)
	for _, s := range all {
		for o, x := range s.heap {
			if y := g.s0.obj(o); y != nil && y != x && (g.parents[o] || e.base[o] != nil) {
				g.tracked[o] = true
			}
		}
	}
	g.findPrivate()
	g.entryV = map[string]Lin{}
	g.entry = &inst{s: g.s0.fork()}
	g.makePool()
	orig := map[*inst]*State{}
	var ins2 []*inst
	for _, s := range all {
		in := &inst{s: s.fork()}
		orig[in] = s
		g.normalise(in)
		g.pad.learn(g, in.s)
		ins2 = append(ins2, in)
	}
	for _, in := range ins2 {
		g.pad.apply(g, in.s)
		g.walk(in, nil, nil)
		for _, sl := range in.slots {
			// Whether there is data decides what comes next.
			if !strings.HasPrefix(sl.path, "buf") && strings.HasSuffix(sl.path, ".len") {
				if lo, _ := in.s.hull(sl.l); lo >= 1 {
					in.sig += "+"
				} else {
					in.sig += "?"
				}
			}
		}
		grp := g.groups[in.sig]
		if grp == nil {
			grp = &group{key: in.sig, sym: map[string]Sym{}, dead: map[string]bool{}, dom: map[string]ISet{}, grow: map[string]int{}}
			g.groups[in.sig] = grp
			g.order = append(g.order, in.sig)
		}
		grp.insts = append(grp.insts, in)
	}
	var out []*State
	for _, k := range g.order {
		grp := g.groups[k]
		if len(grp.insts) == 1 {
			out = append(out, orig[grp.insts[0]])
			continue
		}
		g.build(grp)
		g.keepCommon(grp, maxSym)
		out = append(out, grp.tmpl)
	}
	if debugLoop {
		println("join", e.pos(b.Instrs[0]), len(ins), "->", len(out))
		if debugJoin {
			for _, k := range g.order {
				println("   ", g.id, len(g.groups[k].insts), k[strings.Index(k, "asked"):], "   CANON ", g.groups[k].canon)
			}
		}
	}
	return out
}

// asking: the function, or what it calls, calls the environment.
func (e *Engine) asking(fn *ssa.Function) bool {
	return e.stream != nil && e.stream.out != nil && !e.driving(fn) && e.asks(fn)
}

// keepCommon adds to a joined state what all states know of symbols that are
// older than the base.
func (g *generaliser) keepCommon(grp *group, maxSym Sym) {
	t, first := grp.tmpl, grp.insts[0].s
	old := func(l Lin) bool {
		for _, x := range l.T {
			if x.S >= maxSym {
				return false
			}
		}
		return true
	}
	all := func(f func(s *State) bool) bool {
		for _, in := range grp.insts {
			if !f(in.s) {
				return false
			}
		}
		return true
	}
	for _, c := range first.cons {
		if old(c) && !t.entails(c) && all(func(s *State) bool { return s.entails(c) }) {
			t.addCons(c)
		}
	}
	for x := range first.iv {
		if x >= maxSym {
			continue
		}
		r, f := t.rootOf(x)
		if f != nil || r != x {
			continue
		}
		var u ISet
		ok := all(func(s *State) bool {
			r, f := s.rootOf(x)
			if r != x || f != nil {
				return false
			}
			u = u.Union(s.rootSet(r))
			return true
		})
		if ok {
			t.iv[x] = t.rootSet(x).Intersect(u)
		}
	}
	for k, v := range first.facts {
		if _, known := t.facts[k]; known || !old(v) {
			continue
		}
		if all(func(s *State) bool {
			w, ok := s.facts[k]
			return ok && s.entailsEq(v, w)
		}) {
			t.facts[k] = v
		}
	}
}

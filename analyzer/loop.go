package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// generalise finds an inductive set of head states (templates) for a loop
// whose control the entry state does not decide, and returns what leaves the
// loop from them.
//
// Head states are grouped by their discrete shape. The integers in a group's
// states (slots) are the columns of a table; a template keeps the relations
// between columns that hold in all of the group's states: constants, affine
// ties, and inequalities of a fixed form. Templates are run until the states
// on the back edges satisfy the templates they started from.
type generaliser struct {
	e       *Engine
	fn      *ssa.Function
	n       *loopNest
	l       *loopT
	s0      *State
	id      int
	live    []ssa.Value
	level   int            // 0 precise, 1 forgets scratch arrays, 2 forgets all content
	parents map[ObjID]bool // reachable other than from the loop's registers
	tracked map[ObjID]bool
	entry   *inst
	entryV  map[string]Lin
	pool    []Lin
	maxSym0 Sym
	known   map[Sym]bool // symbols the entry state mentions
	groups  map[string]*group
	order   []string
	objFor  map[string]ObjID
	last    *result
	drive   bool // the loop of a driver
	pad     *padding
	private map[ObjID]bool // arrays that the old state has under another name
	join    bool           // not a loop: a block
	asks    bool           // the loop calls the environment
}

type slotVal struct {
	path string
	l    Lin
	dom  ISet
}

// inst is a head state that arrived.
type inst struct {
	s     *State
	slots []slotVal
	sig   string
	par   *group
	parT  *State
}

type group struct {
	key   string
	older []Lin
	insts []*inst
	sym   map[string]Sym
	dead  map[string]bool // candidate relations refuted
	dom   map[string]ISet
	grow  map[string]int
	canon string
	tmpl  *State
	repl  []Lin // slot values of the template
	slots []slotVal
	ran   *ran
}

// ran is what running a group's template gave.
type ran struct {
	canon   string
	tracked int
	res     *result
	backs   []*inst
	log     *Log
}

const (
	maxRounds = 40
)

var debugJoin = os.Getenv("HG_LOOP") == "4"

var debugLoop = os.Getenv("HG_LOOP") != ""

func (e *Engine) generalise(fn *ssa.Function, n *loopNest, l *loopT, s0 *State) *result {
	for level := 0; level < 3; level++ {
		if len(e.targets) == 0 {
			level = 2
		}
		e.nfresh++
		g := &generaliser{e: e, fn: fn, n: n, l: l, s0: s0.fork(), id: e.nfresh, level: level, groups: map[string]*group{}, objFor: map[string]ObjID{}}
		g.drive, g.asks = e.driving(fn), e.stream != nil && e.loopAsks(l)
		if e.stream != nil && e.stream.out != nil {
			g.pad = newPadding()
		}
		if g.drive && level > 0 {
			break
		}
		nm := len(e.mism)
		r, ok := g.run()
		if ok {
			return r
		}
		if e.expired() {
			break
		}
		_ = nm
	}
	e.log = newLog()
	e.undecided(l.head.Instrs[0], "no inductive invariant found for the loop")
	return &result{}
}

func (g *generaliser) run() (*result, bool) {
	e := g.e
	e.dropDead(g.s0, g.l.head)
	for _, gh := range sortedGhosts(g.s0) {
		// With a history, a character may be known before it is converted.
		if strings.HasPrefix(gh, "bnd:") && g.pad == nil {
			e.advance(g.s0, gh)
		}
	}
	for v := range g.s0.frame.regs {
		g.live = append(g.live, v)
	}
	sort.Slice(g.live, func(i, j int) bool { return g.live[i].Name() < g.live[j].Name() })
	g.maxSym0 = Sym(len(e.syms))
	g.known = mentioned(g.s0)
	g.parents = g.reach(g.s0, true)
	g.tracked = map[ObjID]bool{}
	if bs := g.decide(g.s0); len(bs) != 1 {
		// Undecided truth values at the entry: one loop for each case.
		total := &result{}
		for _, b := range bs {
			h := &generaliser{drive: g.drive, pad: g.pad, asks: g.asks, e: e, fn: g.fn, n: g.n, l: g.l, s0: b, id: g.id, level: g.level, tracked: map[ObjID]bool{}, groups: map[string]*group{}, objFor: map[string]ObjID{}}
			e.nfresh++
			h.id = e.nfresh
			save := e.log
			e.log = newLog()
			r, ok := h.run()
			save.add(e.log)
			e.log = save
			if !ok {
				return nil, false
			}
			total.rets = append(total.rets, r.rets...)
			for to, ss := range r.exits {
				for _, s := range ss {
					total.exit(to, s)
				}
			}
		}
		return total, true
	}
	var backs []*inst
	for round := 0; ; round++ {
		if round > maxRounds || e.expired() {
			if debugLoop {
				fmt.Printf("loop %s: rounds exhausted\n", e.pos(g.l.head.Instrs[0]))
			}
			return nil, false
		}
		// Objects the loop changes, in any state.
		for _, b := range backs {
			for o, x := range b.s.heap {
				if y := g.s0.obj(o); y != nil && y != x && (g.parents[o] || e.base[o] != nil) {
					g.tracked[o] = true
				}
			}
		}
		g.findPrivate()
		g.entry = &inst{s: g.s0.fork()}
		all := []*inst{g.entry}
		for _, b := range backs {
			all = append(all, &inst{s: b.s.fork(), par: b.par, parT: b.parT})
		}
		g.entryV = nil
		for _, grp := range g.groups {
			grp.insts = nil
		}
		changed := false
		for i, in := range all {
			if i > 0 {
				g.normalise(in)
			} else if g.e.stream != nil {
				g.prune(in.s)
			}
			if i == 0 || g.pad == nil {
				g.walk(in, nil, nil)
			}
			if i == 0 {
				g.noteEntry(in)
			}
		}
		if g.pad != nil {
			for _, in := range all {
				g.pad.learn(g, in.s)
			}
			for i, in := range all {
				g.pad.apply(g, in.s)
				g.walk(in, nil, nil)
				if i == 0 {
					g.noteEntry(in)
				}
			}
		}
		for _, in := range all {
			grp := g.groups[in.sig]
			if grp == nil {
				grp = &group{key: in.sig, sym: map[string]Sym{}, dead: map[string]bool{}, dom: map[string]ISet{}, grow: map[string]int{}}
				g.groups[in.sig] = grp
				g.order = append(g.order, in.sig)
				changed = true
			}
			grp.insts = append(grp.insts, in)
		}
		max := maxGroups[g.level]
		if g.drive || g.asks {
			max = 150
		} else if e.stream != nil && g.level == 0 {
			max = 16
		}
		if os.Getenv("HG_LOOP") == "5" && g.pad != nil {
			for i, in := range all {
				fmt.Printf("INST %d of %s round %d\n   %s\n", i, e.pos(g.l.head.Instrs[0]), round, in.sig)
				for _, o := range in.s.objIDs() {
					if x := in.s.heap[o]; e.base[o] == nil && x.kind == oArr {
						fmt.Print("       ", o, x.name, in.s.ropeStr(x.rope), "  WINDOWS")
						for _, w := range g.windows(in.s)[o] {
							fmt.Print(" ", in.s.valStr(w))
						}
						if i > 0 {
							fmt.Print("     WAS ", in.s.ropeStr(backs[i-1].s.obj(o).rope))
						}
						fmt.Println()
					}
				}
			}
		}
		if len(g.groups) > max {
			if debugLoop {
				fmt.Printf("loop %s: too many groups\n", e.pos(g.l.head.Instrs[0]))
				for _, k := range g.order {
					fmt.Println("   ", k)
					if os.Getenv("HG_LOOP") == "3" && len(g.groups[k].insts) > 0 {
						s := g.groups[k].insts[0].s
						for _, o := range s.objIDs() {
							if x := s.heap[o]; e.base[o] == nil {
								fmt.Print("       ", o, x.name, s.ropeStr(x.rope), "  WINDOWS")
								for _, w := range g.windows(s)[o] {
									fmt.Print(" ", s.valStr(w))
								}
								fmt.Println()
							}
						}
						fmt.Println("      ", s.describe())
						for _, k := range sortedGhosts(s) {
							fmt.Print("   ", k, "=", s.valStr(s.ghosts[k]))
						}
						for k, v := range s.facts {
							fmt.Print("   FACT ", k, "=", s.linStr(v))
						}
						for _, v := range sortedRegs(s.frame) {
							fmt.Print("   ", v.Name(), "=", s.valStr(s.frame.regs[v]))
						}
						fmt.Println()
					}
				}
			}
			return nil, false
		}
		for _, k := range g.order {
			grp := g.groups[k]
			if len(grp.insts) == 0 {
				continue // keeps its template
			}
			if g.build(grp) {
				changed = true
			}
		}
		if debugLoop {
			fmt.Printf("loop %s round %d: %d instances, %d groups, changed=%v\n", e.pos(g.l.head.Instrs[0]), round, len(all), len(g.groups), changed)
			if os.Getenv("HG_LOOP") == "2" {
				for _, k := range g.order {
					fmt.Printf("   group %s\n      %s\n", k, g.groups[k].canon)
				}
			}
		}
		if !changed {
			g.terminates(backs)
			break
		}
		// Run all templates.
		e.log = newLog()
		backs = nil
		g.last = &result{}
		for _, k := range g.order {
			grp := g.groups[k]
			if r := grp.ran; r != nil && r.canon == grp.canon && r.tracked == len(g.tracked) {
				g.last.rets = append(g.last.rets, r.res.rets...)
				for _, b := range g.n.order {
					for _, s := range r.res.exits[b] {
						g.last.exit(b, s)
					}
				}
				backs = append(backs, r.backs...)
				e.log.add(r.log)
				continue
			}
			outer := e.log
			e.log = newLog()
			nb := len(backs)
			t := grp.tmpl.fork()
			r := e.region(g.fn, g.n, g.l, map[*ssa.BasicBlock][]*State{g.l.head: {t}}, false)
			g.last.rets = append(g.last.rets, r.rets...)
			for _, b := range g.n.order {
				for _, s := range r.exits[b] {
					g.last.exit(b, s)
				}
			}
			bs := e.merge(r.backs, g.l.head)
			for _, b := range bs {
				for _, d := range g.decide(b) {
					backs = append(backs, &inst{s: d, par: grp, parT: grp.tmpl})
				}
			}
			if g.drive || g.asks {
				grp.ran = &ran{grp.canon, len(g.tracked), r, append([]*inst{}, backs[nb:]...), e.log}
			}
			outer.add(e.log)
			e.log = outer
			if e.expired() {
				return nil, false
			}
		}
	}
	e.loopsGen[e.pos(g.l.head.Instrs[0])] = fmt.Sprintf("%d templates", len(g.groups))
	return g.last, true
}

// named: the templates refer to the object by the name it has in the old state.
func (g *generaliser) named(o ObjID) bool {
	return g.e.base[o] != nil || g.s0.heap[o] != nil && !g.private[o]
}

// findPrivate finds the arrays that only what is compared refers to. Which
// ones they are makes no difference.
func (g *generaliser) findPrivate() {
	if g.pad == nil {
		return
	}
	g.private = map[ObjID]bool{}
	outside := map[ObjID]bool{}
	var visit func(v Value)
	visit = func(v Value) {
		switch v := v.(type) {
		case VPtr:
			outside[v.O] = true
		case VSlice:
			outside[v.O] = true
		case VMap:
			outside[v.O] = true
		case VIter:
			outside[v.O] = true
		case VEmb:
			outside[v.O] = true
		case VIface:
			visit(v.V)
		case VStruct:
			for _, f := range v.F {
				visit(f)
			}
		case VTuple:
			for _, f := range v {
				visit(f)
			}
		case VFunc:
			for _, f := range v.Free {
				visit(f)
			}
		}
	}
	for f := g.s0.frame.parent; f != nil; f = f.parent {
		for _, v := range f.regs {
			visit(v)
		}
	}
	for o := range g.reach(g.s0, true) {
		x := g.s0.obj(o)
		if g.tracked[o] || x == nil || g.e.base[o] == x {
			continue
		}
		visit(x.val)
		for _, p := range x.rope {
			for _, v := range p.V {
				visit(v)
			}
		}
		for _, a := range x.alias {
			outside[a.O] = true
		}
		if x.m != nil {
			for _, v := range x.m.ints {
				visit(v)
			}
			for _, v := range x.m.strs {
				visit(v)
			}
		}
	}
	for o, x := range g.s0.heap {
		if x.kind == oArr && !outside[o] && !g.e.roots[o] && g.e.base[o] == nil {
			g.private[o] = true
		}
	}
}

func (g *generaliser) noteEntry(in *inst) {
	g.entryV = map[string]Lin{}
	for _, sl := range in.slots {
		g.entryV[sl.path] = sl.l
	}
	g.makePool()
}

// decide splits a state until the truth values in live registers and in the
// cells of the heap are constants.
func (g *generaliser) decide(s *State) []*State {
	g.e.dropDead(s, g.l.head)
	work := []*State{s}
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		c, found := g.openBool(s)
		if !found {
			out = append(out, s)
			continue
		}
		y, n := s.split(c)
		for _, t := range []*State{y, n} {
			if t != nil {
				g.fixBools(t, c, t == y)
				work = append(work, t)
			}
		}
	}
	return out
}

func (g *generaliser) openBool(s *State) (Cond, bool) {
	var find func(v Value) (Cond, bool)
	find = func(v Value) (Cond, bool) {
		switch v := v.(type) {
		case VBool:
			if _, ok := v.C.ConstVal(); !ok {
				return v.C, true
			}
		case VStruct:
			for _, f := range v.F {
				if c, ok := find(f); ok {
					return c, true
				}
			}
		case VTuple:
			for _, f := range v {
				if c, ok := find(f); ok {
					return c, true
				}
			}
		}
		return Cond{}, false
	}
	for _, v := range sortedRegs(s.frame) {
		if c, ok := find(s.frame.regs[v]); ok {
			return c, true
		}
	}
	for _, o := range s.objIDs() {
		if x := s.heap[o]; x.kind == oCell {
			if c, ok := find(x.val); ok {
				return c, true
			}
		}
	}
	return Cond{}, false
}

func sortedRegs(f *Frame) []ssa.Value {
	var out []ssa.Value
	for v := range f.regs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (g *generaliser) fixBools(s *State, c Cond, val bool) {
	k := fmt.Sprintf("%d:%s", c.Op, c.L.Key())
	nc := c.Not()
	nk := fmt.Sprintf("%d:%s", nc.Op, nc.L.Key())
	var fix func(v Value) (Value, bool)
	fix = func(v Value) (Value, bool) {
		switch v := v.(type) {
		case VBool:
			vk := fmt.Sprintf("%d:%s", v.C.Op, v.C.L.Key())
			if vk == k {
				return boolVal(val), true
			}
			if vk == nk {
				return boolVal(!val), true
			}
		case VStruct:
			out := VStruct{append([]Value{}, v.F...)}
			hit := false
			for i, f := range v.F {
				if n, ok := fix(f); ok {
					out.F[i] = n
					hit = true
				}
			}
			return out, hit
		case VTuple:
			out := append(VTuple{}, v...)
			hit := false
			for i, f := range v {
				if n, ok := fix(f); ok {
					out[i] = n
					hit = true
				}
			}
			return out, hit
		}
		return v, false
	}
	for _, v := range sortedRegs(s.frame) {
		if n, ok := fix(s.frame.regs[v]); ok {
			s.set(v, n)
		}
	}
	for _, o := range s.objIDs() {
		if x := s.heap[o]; x.kind == oCell {
			if n, ok := fix(x.val); ok {
				s.mut(o).val = n
			}
		}
	}
}

// reach finds the objects reachable from the frames and ghosts.
func (g *generaliser) reach(s *State, regs bool) map[ObjID]bool {
	out := map[ObjID]bool{}
	var visit func(v Value)
	obj := func(o ObjID) {
		if o == 0 || out[o] {
			return
		}
		out[o] = true
		x := s.obj(o)
		if x == nil {
			return
		}
		if g.e.base[o] == x {
			return
		}
		visit(x.val)
		for _, p := range x.rope {
			for _, v := range p.V {
				visit(v)
			}
		}
		if x.m != nil {
			for _, v := range x.m.ints {
				visit(v)
			}
			for _, v := range x.m.strs {
				visit(v)
			}
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case VPtr:
			obj(v.O)
		case VSlice:
			obj(v.O)
		case VMap:
			obj(v.O)
		case VIter:
			obj(v.O)
		case VEmb:
			obj(v.O)
		case VIface:
			visit(v.V)
		case VStruct:
			for _, f := range v.F {
				visit(f)
			}
		case VTuple:
			for _, f := range v {
				visit(f)
			}
		case VFunc:
			for _, f := range v.Free {
				visit(f)
			}
		}
	}
	for f := s.frame; f != nil; f = f.parent {
		if f == s.frame && !regs {
			continue
		}
		for _, v := range f.regs {
			visit(v)
		}
	}
	for _, v := range s.ghosts {
		visit(v)
	}
	for o := range s.heap {
		if g.e.base[o] != nil {
			obj(o)
		}
	}
	for o := range g.e.roots {
		obj(o)
	}
	return out
}

// windows lists the slices that point into each object.
func (g *generaliser) windows(s *State) map[ObjID][]VSlice {
	out := map[ObjID][]VSlice{}
	var visit func(v Value)
	visit = func(v Value) {
		switch v := v.(type) {
		case VSlice:
			if v.O != 0 && (g.e.stream == nil || !s.entailsEq(v.Len, Lin{})) {
				for _, w := range out[v.O] {
					if w.Off.Eq(v.Off) && w.Len.Eq(v.Len) {
						return
					}
				}
				out[v.O] = append(out[v.O], v)
			}
		case VPtr:
			if v.Idx != nil {
				out[v.O] = append(out[v.O], VSlice{O: v.O, Off: *v.Idx, Len: konst(1)})
			}
		case VIface:
			visit(v.V)
		case VStruct:
			for _, f := range v.F {
				visit(f)
			}
		case VTuple:
			for _, f := range v {
				visit(f)
			}
		case VFunc:
			for _, f := range v.Free {
				visit(f)
			}
		}
	}
	for f := s.frame; f != nil; f = f.parent {
		for _, v := range f.regs {
			visit(v)
		}
	}
	for _, v := range s.ghosts {
		visit(v)
	}
	in := g.reach(s, true)
	for _, o := range s.objIDs() {
		if !in[o] {
			continue
		}
		x := s.heap[o]
		if x.kind == oCell {
			visit(x.val)
		}
		for _, p := range x.rope {
			for _, v := range p.V {
				visit(v)
			}
		}
	}
	return out
}

// normalise brings the arrays and strings of an arrived state into a form
// that can be compared: output that agrees with the specified translation is
// folded, and what no slice gives access to is forgotten.
func (g *generaliser) normalise(in *inst) {
	s, e := in.s, g.e
	if e.stream != nil && (g.drive || g.asks) {
		e.stream.settle(s, false)
	}
	pre := &inst{s: s}
	g.walk(pre, nil, nil)
	anchors := g.anchors(s, pre.slots)
	for _, gh := range sortedGhosts(s) {
		if strings.HasPrefix(gh, "bnd:") {
			was := s.ghosts[gh]
			e.advance(s, gh)
			if g.pad != nil && !g.moved(s, gh, pre.slots) {
				s.ghosts[gh] = was
			}
		}
	}
	wins := g.windows(s)
	reach := g.reach(s, true)
	for _, o := range s.objIDs() {
		x := s.heap[o]
		if !reach[o] {
			continue
		}
		old := g.s0.obj(o)
		if !g.private[o] && (old != nil && !g.tracked[o] || old == x && !g.tracked[o]) {
			continue
		}
		switch x.kind {
		case oArr, oIter:
			r := x.rope
			if ws := wins[o]; (len(ws) >= 1 || e.stream != nil) && x.kind == oArr {
				for _, w := range ws {
					r = g.cutAt(s, r, w.Off)
					r = g.cutAt(s, r, w.Off.Add(w.Len))
				}
				if !e.roots[o] && !g.join {
					r = g.forgetOutside(s, r, ws)
				}
			}
			r = g.tidy(s, r, anchors)
			if g.level == 1 && x.kind == oArr && ropeOfInts(r) {
				n := r.Len()
				small := false
				if old != nil {
					n = old.rope.Len()
					small = n.IsConst() && n.C <= 64
				}
				if small || !hasHom(r) {
					r = Rope{{K: pUnk, Ln: n}}
				}
			}
			if s.ropeKey(r) != s.ropeKey(x.rope) {
				s.mut(o).rope = r
			}
		case oCell:
			nv := g.tidyVal(s, x.val, anchors)
			if s.valKey(nv) != s.valKey(x.val) {
				s.mut(o).val = nv
			}
		}
	}
	for _, v := range sortedRegs(s.frame) {
		x := s.frame.regs[v]
		if nv := g.tidyVal(s, x, anchors); s.valKey(nv) != s.valKey(x) {
			s.set(v, nv)
		}
	}
	for _, gh := range sortedGhosts(s) {
		s.ghosts[gh] = g.tidyVal(s, s.ghosts[gh], anchors)
	}
}

// moved: something else went forward by as much as the ghost did.
func (g *generaliser) moved(s *State, ghost string, slots []slotVal) bool {
	a, ok1 := g.s0.ghosts[ghost].(VInt)
	b, ok2 := s.ghosts[ghost].(VInt)
	if !ok1 || !ok2 {
		return true
	}
	d := b.L.Sub(a.L)
	for _, sl := range slots {
		if v, ok := g.entryV[sl.path]; ok && !strings.HasPrefix(sl.path, "ghost ") && !v.Eq(sl.l) && s.entailsEq(sl.l.Sub(v), d) {
			return true
		}
	}
	return false
}

// prune forgets what no slice gives access to, at the entry.
func (g *generaliser) prune(s *State) {
	wins := g.windows(s)
	for _, o := range s.objIDs() {
		x := s.heap[o]
		if !g.tracked[o] && !g.private[o] || x.kind != oArr || g.e.roots[o] {
			continue
		}
		r := x.rope
		for _, w := range wins[o] {
			r = g.cutAt(s, r, w.Off)
			r = g.cutAt(s, r, w.Off.Add(w.Len))
		}
		r = g.forgetOutside(s, r, wins[o])
		if s.ropeKey(r) != s.ropeKey(x.rope) {
			s.mut(o).rope = r
		}
	}
}

func sortedGhosts(s *State) []string {
	var out []string
	for k := range s.ghosts {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func (g *generaliser) tidyVal(s *State, v Value, anchors []anchor) Value {
	switch v := v.(type) {
	case VStr:
		return VStr{g.tidy(s, v.R, anchors)}
	case VArr:
		return VArr{g.tidy(s, v.R, anchors)}
	case VBuilder:
		return VBuilder{g.tidy(s, v.R, anchors)}
	case VStruct:
		out := VStruct{append([]Value{}, v.F...)}
		for i, f := range v.F {
			out.F[i] = g.tidyVal(s, f, anchors)
		}
		return out
	}
	return v
}

// tidy folds a rope.
func (g *generaliser) tidy(s *State, r Rope, anchors []anchor) Rope {
	if !ropeOfInts(r) {
		return r
	}
	if g.level < 2 {
		r = g.e.foldRope(s, r, anchors)
	}
	r = trim(s, r)
	var out Rope
	for _, p := range r {
		switch {
		case p.K == pElems && len(p.V) <= 4096:
			for _, v := range p.V {
				l, ok := lin(v)
				if ok && len(l.T) == 1 && l.C == 0 && l.T[0].K == 1 {
					if rd, ok := g.e.readOf[l.T[0].S]; ok {
						out = out.push(sub(rd.q, rd.pos, rd.pos.AddC(1)))
						continue
					}
				}
				if g.level == 2 {
					out = out.push(Piece{K: pUnk, Ln: konst(1)})
				} else {
					out = out.push(elems(v))
				}
			}
		case g.level == 2 && (p.K == pRune || p.K == pHom || p.K == pElems):
			out = out.push(Piece{K: pUnk, Ln: p.Ln})
		default:
			out = out.push(p)
		}
	}
	if g.level == 2 && len(out) > 3 {
		return Rope{{K: pUnk, Ln: out.Len()}}
	}
	return out
}

func ropeOfInts(r Rope) bool {
	for _, p := range r {
		if p.K == pElems {
			for _, v := range p.V {
				if _, ok := v.(VInt); !ok {
					return false
				}
			}
		}
	}
	return true
}

func (g *generaliser) cutAt(s *State, r Rope, at Lin) Rope {
	t := s.fork()
	cs := g.e.cutRope(t, r, at)
	if len(cs) != 1 || !cs[0].OK {
		return r
	}
	// Only take the cut if it did not depend on refining the state.
	return append(append(Rope{}, cs[0].L...), cs[0].R...)
}

func (g *generaliser) forgetOutside(s *State, r Rope, ws []VSlice) Rope {
	cum := konst(0)
	var out Rope
	for _, p := range r {
		e := cum.Add(p.Ln)
		in := false
		for _, w := range ws {
			end := w.Off.Add(w.Len)
			if !s.entails(w.Off.Sub(e)) && !s.entails(cum.Sub(end)) && !s.entails(w.Len.Neg()) {
				in = true
				break
			}
		}
		if in {
			out = append(append(Rope{}, out...), p)
		} else {
			out = out.push(Piece{K: pUnk, Ln: p.Ln})
		}
		cum = e
	}
	return out
}

// anchors proposes stretches of the input that the loop may have dealt with.
func (g *generaliser) anchors(s *State, slots []slotVal) []anchor {
	var out []anchor
	seen := map[string]bool{}
	bases := []Lin{{}}
	addBase := func(r Rope) {
		cum := konst(0)
		for _, p := range r {
			if p.K == pSub && !p.U8 {
				b := p.Lo.Sub(cum)
				dup := false
				for _, x := range bases {
					if x.Eq(b) {
						dup = true
					}
				}
				if !dup && len(bases) < 6 {
					bases = append(bases, b)
				}
			}
			cum = cum.Add(p.Ln)
		}
	}
	live := g.reach(g.s0, true)
	for _, o := range g.s0.objIDs() {
		if x := g.s0.heap[o]; x.kind == oArr && live[o] {
			addBase(x.rope)
		}
	}
	for _, gh := range sortedGhosts(g.s0) {
		if v, ok := g.s0.ghosts[gh].(VInt); ok {
			dup := false
			for _, x := range bases {
				if x.Eq(v.L) {
					dup = true
				}
			}
			if !dup && len(bases) < 8 {
				bases = append(bases, v.L)
			}
		}
	}
	for _, sl := range slots {
		a, ok := g.entryV[sl.path]
		if !ok || a.Eq(sl.l) {
			continue
		}
		for _, b := range bases {
			for d := int64(0); d <= 1; d++ {
				from, to := b.Add(a).AddC(d), b.Add(sl.l).AddC(d)
				k := from.Key() + "|" + to.Key()
				if !seen[k] {
					seen[k] = true
					out = append(out, anchor{from, to})
				}
			}
		}
	}
	return out
}

// ---- walking a state ----

type walker struct {
	g     *generaliser
	s     *State
	toks  []string
	slots []slotVal
	repl  []Lin  // values to put into the slots, if rebuilding
	t     *State // the state rebuilt
	key   string // names the objects of the rebuilt state
	num   map[ObjID]int
	queue []ObjID
}

// walk collects the shape and the slots of an arrived state. With repl, it
// also builds the state t from them.
func (g *generaliser) walk(in *inst, repl []Lin, t *State) {
	s := in.s
	w := &walker{g: g, s: s, repl: repl, t: t, key: in.sig, num: map[ObjID]int{}}
	for _, v := range g.live {
		x, ok := s.frame.regs[v]
		if !ok {
			x = VUnk{"unset"}
		}
		var dom ISet
		if b, ok := v.Type().Underlying().(*types.Basic); ok {
			dom = typeDom(b)
		}
		w.tok(v.Name() + "=")
		n := w.val(x, v.Name(), dom)
		if t != nil {
			t.set(v, n)
		}
	}
	for _, gh := range sortedGhosts(s) {
		w.tok(gh + "=")
		n := w.val(s.ghosts[gh], "ghost "+gh, nil)
		if t != nil {
			t.ghosts[gh] = n
		}
	}
	var tr []ObjID
	for o := range g.tracked {
		if !g.private[o] {
			tr = append(tr, o)
		}
	}
	sortIDs(tr)
	for _, o := range tr {
		w.object(o, o, fmt.Sprintf("obj%d", o))
	}
	for i := 0; i < len(w.queue); i++ {
		o := w.queue[i]
		w.object(o, w.newID(o), fmt.Sprintf("new%d", i))
	}
	in.slots = w.slots
	in.sig = strings.Join(w.toks, " ")
}

// fixed is l, or the constant it must be.
func (s *State) fixed(l Lin) Lin {
	lo, hi := s.hull(l)
	up, down := l.AddC(-l.C).Key(), l.AddC(-l.C).Neg().Key()
	for _, c := range s.cons {
		switch c.AddC(-c.C).Key() {
		case up: // l - l.C + c.C >= 0
			lo = max(lo, l.C-c.C)
		case down: // c.C - (l - l.C) >= 0
			hi = min(hi, l.C+c.C)
		}
	}
	if lo == hi {
		return konst(lo)
	}
	return l
}

func (w *walker) tok(t string) { w.toks = append(w.toks, t) }

func (w *walker) lin(l Lin, path string, dom ISet) Lin {
	if w.repl == nil && w.g.pad != nil && !l.IsConst() && strings.HasSuffix(path, ".len") {
		l = w.s.fixed(l)
	}
	w.slots = append(w.slots, slotVal{path, l, dom})
	if w.repl != nil {
		return w.repl[len(w.slots)-1]
	}
	return l
}

var lenDom = ivSet(0, maxLen)

// ref maps an object to its name in the template.
func (w *walker) ref(o ObjID) ObjID {
	if w.g.named(o) {
		w.tok(fmt.Sprintf("@%d", o))
		return o
	}
	n, ok := w.num[o]
	if !ok {
		n = len(w.queue)
		w.num[o] = n
		w.queue = append(w.queue, o)
	}
	w.tok(fmt.Sprintf("#%d", n))
	return w.newID(o)
}

func (w *walker) newID(o ObjID) ObjID {
	if w.t == nil {
		return o
	}
	k := fmt.Sprintf("%s#%d", w.key, w.num[o])
	id, ok := w.g.objFor[k]
	if !ok {
		w.g.e.nobj++
		id = ObjID(w.g.e.nobj)
		w.g.objFor[k] = id
	}
	return id
}

func (w *walker) val(v Value, path string, dom ISet) Value {
	g := w.g
	switch v := v.(type) {
	case nil:
		w.tok("unset")
		return v
	case VInt:
		l := v.L
		if len(l.T) == 1 && l.C == 0 && l.T[0].K == 1 {
			if rd, ok := g.e.readOf[l.T[0].S]; ok && !g.known[l.T[0].S] {
				w.tok(fmt.Sprintf("R%d", rd.q.ID))
				p := w.lin(rd.pos, path+".pos", lenDom)
				if w.t != nil {
					return VInt{g.e.readSym(w.t, rd.q, p)}
				}
				return v
			}
		}
		w.tok("i")
		return VInt{w.lin(l, path, dom)}
	case VBool:
		b, ok := v.C.ConstVal()
		if !ok {
			w.tok("b?")
			return g.e.anyOf(w.s, types.Typ[types.Bool], "flag")
		}
		w.tok(fmt.Sprint(b))
		return v
	case VNil:
		w.tok("nil")
		return v
	case VErr:
		w.tok("err:" + errClass(v.ID))
		return v
	case VExt:
		w.tok("ext:" + v.Kind)
		return v
	case VIface:
		w.tok("iface:" + v.T.String())
		return VIface{v.T, w.val(v.V, path+".i", nil)}
	case VPtr:
		w.tok("ptr" + fmt.Sprint(v.Path))
		out := VPtr{O: w.ref(v.O), Path: v.Path}
		if v.Idx != nil {
			w.tok("idx")
			i := w.lin(*v.Idx, path+".idx", lenDom)
			out.Idx = &i
		}
		return out
	case VSlice:
		if v.O == 0 {
			w.tok("nilslice")
			return v
		}
		w.tok("slice")
		out := VSlice{O: w.ref(v.O)}
		out.Off = w.lin(v.Off, path+".off", lenDom)
		out.Len = w.lin(v.Len, path+".len", lenDom)
		if v.Max != nil {
			w.tok("max")
			m := w.lin(*v.Max, path+".max", lenDom)
			out.Max = &m
		}
		return out
	case VStr:
		w.tok("str")
		return VStr{w.rope(v.R, path)}
	case VArr:
		w.tok("arr")
		return VArr{w.rope(v.R, path)}
	case VBuilder:
		w.tok("bld")
		return VBuilder{w.rope(v.R, path)}
	case VMap:
		w.tok("map")
		return VMap{w.ref(v.O)}
	case VIter:
		w.tok("iter")
		return VIter{w.ref(v.O)}
	case VEmb:
		w.tok("emb")
		return VEmb{w.ref(v.O)}
	case VStruct:
		w.tok("{")
		out := VStruct{make([]Value, len(v.F))}
		for i, f := range v.F {
			out.F[i] = w.val(f, fmt.Sprintf("%s.%d", path, i), nil)
		}
		w.tok("}")
		return out
	case VTuple:
		w.tok("(")
		out := make(VTuple, len(v))
		for i, f := range v {
			out[i] = w.val(f, fmt.Sprintf("%s.%d", path, i), nil)
		}
		w.tok(")")
		return out
	case VFunc:
		if v.F != nil {
			w.tok("func:" + v.F.String())
		} else {
			w.tok("builtin")
		}
		out := VFunc{F: v.F, B: v.B}
		for i, f := range v.Free {
			out.Free = append(out.Free, w.val(f, fmt.Sprintf("%s.free%d", path, i), nil))
		}
		return out
	}
	w.tok("unk")
	return VUnk{"unknown in a loop"}
}

// errClass drops what is particular to one instance of an error.
func errClass(id string) string {
	if i := strings.LastIndexByte(id, '#'); i >= 0 {
		return id[:i]
	}
	return id
}

func (w *walker) rope(r Rope, path string) Rope {
	if w.g.pad == nil {
		r = trim(w.s, r)
	}
	out := Rope{}
	w.tok("[")
	for i, p := range r {
		pp := fmt.Sprintf("%s/%d", path, i)
		q := p
		switch p.K {
		case pElems:
			if len(p.V) > 64 {
				// Kept if it is the same throughout.
				w.tok(fmt.Sprintf("E%d:%s", len(p.V), w.s.valsKey("", p.V)))
				break
			}
			w.tok(fmt.Sprintf("E%d", len(p.V)))
			q.V = make([]Value, len(p.V))
			for j, v := range p.V {
				q.V[j] = w.val(v, fmt.Sprintf("%s.%d", pp, j), nil)
			}
		case pSub:
			w.tok(fmt.Sprintf("S%d:%v", p.Seq.ID, p.U8))
			q.Lo = w.lin(p.Lo, pp+".lo", lenDom)
			q.Hi = w.lin(p.Hi, pp+".hi", lenDom)
			if p.U8 {
				q.Ln = w.lin(p.Ln, pp+".ln", lenDom)
			} else {
				q.Ln = q.Hi.Sub(q.Lo)
			}
		case pHom:
			w.tok(fmt.Sprintf("H%s:%d:%v", p.Hom.Name, p.Seq.ID, p.U8))
			q.Lo = w.lin(p.Lo, pp+".lo", lenDom)
			q.Hi = w.lin(p.Hi, pp+".hi", lenDom)
			q.Ln = w.lin(p.Ln, pp+".ln", lenDom)
		case pRune:
			w.tok("r")
			q.V = []Value{w.val(p.V[0], pp+".rune", nil)}
			q.Ln = w.lin(p.Ln, pp+".ln", ivSet(1, 4))
		case pUnk:
			w.tok("U")
			q.Ln = w.lin(p.Ln, pp+".ln", lenDom)
		}
		out = append(out, q)
	}
	w.tok("]")
	return out
}

func (w *walker) object(o, id ObjID, path string) {
	x := w.s.obj(o)
	w.tok(fmt.Sprintf("<%s %d %d", path, x.kind, x.origin))
	if w.g.pad == nil {
		w.tok(x.name)
	}
	n := *x
	switch x.kind {
	case oCell:
		n.val = w.val(x.val, path, nil)
	case oArr, oIter:
		if x.kind == oIter {
			n.val = w.val(x.val, path+".at", nil)
		}
		n.rope = w.rope(x.rope, path)
	case oMap:
		if old := w.g.s0.obj(o); old != x {
			w.tok("map")
			n.m = &MapObj{ints: map[int64]Value{}, strs: map[string]Value{}, top: true}
		}
	}
	if len(x.alias) > 0 {
		n.alias = nil
		for _, a := range x.alias {
			// Only objects that still exist in the template matter.
			known := w.g.named(a.O)
			k, isNew := w.num[a.O]
			if !known && !isNew {
				continue
			}
			if known {
				w.tok(fmt.Sprintf("~@%d:%v", a.O, a.Known))
			} else {
				w.tok(fmt.Sprintf("~#%d:%v", k, a.Known))
			}
			b := Alias{O: a.O, Known: a.Known}
			if !known {
				b.O = w.newID(a.O)
			}
			if a.Known {
				b.D = w.lin(a.D, fmt.Sprintf("%s~%d", path, a.O), ivSet(-maxLen, maxLen))
			}
			n.alias = append(n.alias, b)
		}
	}
	w.tok(">")
	if w.t != nil {
		n.owner = 0
		w.t.heap[id] = &n
	}
}

// ---- building templates ----

func (g *generaliser) s0only(l Lin) bool {
	for _, t := range l.T {
		if t.S >= g.maxSym0 {
			return false
		}
	}
	return true
}

func (g *generaliser) makePool() {
	g.pool = nil
	seen := map[string]bool{}
	add := func(l Lin) {
		if g.s0only(l) && !seen[l.Key()] && len(g.pool) < 24 {
			seen[l.Key()] = true
			g.pool = append(g.pool, l)
		}
	}
	add(Lin{})
	for _, sl := range g.entry.slots {
		add(sl.l)
	}
	for _, v := range g.live {
		switch x := g.s0.frame.regs[v].(type) {
		case VSlice:
			if x.O != 0 {
				add(x.Len)
				add(x.Off.Add(x.Len))
				add(g.s0.obj(x.O).rope.Len())
			}
		case VStr:
			add(x.R.Len())
		}
	}
	for _, o := range g.s0.objIDs() {
		if x := g.s0.heap[o]; x.kind == oIter || x.kind == oArr {
			add(x.rope.Len())
		}
	}
	for _, t := range g.e.targets {
		add(t.Q.Len)
	}
}

// tie says that a slot is S*(another slot) + D, or a combination of others.
type tie struct {
	rep int
	k   int64
	d   Lin
	sum []int64 // coefficients of the reps, if not nil
}

// build computes a group's template; it reports whether it changed.
func (g *generaliser) build(grp *group) bool {
	e := g.e
	first := grp.insts[0]
	n := len(first.slots)
	// A set of states that differ in nothing: keep them as they are.
	var canon strings.Builder
	ties := make([]*tie, n)
	reps := []int{}
	repl := make([]Lin, n)
	var lines, eqs [][]Lin
	if g.drive || g.asks {
		for _, in := range grp.insts {
			ln, eq := solved(in, g.maxSym0)
			lines, eqs = append(lines, ln), append(eqs, eq)
		}
		if len(grp.repl) == n {
			lines, eqs = append(lines, grp.repl), append(eqs, nil)
		}
	}
	allEq := func(f func(in *inst) (Lin, bool)) (Lin, bool) {
		a, ok := f(first)
		if !ok || !g.s0only(a) {
			return Lin{}, false
		}
		for _, in := range grp.insts[1:] {
			b, ok := f(in)
			if !ok || !in.s.entailsEq(a, b) {
				return Lin{}, false
			}
		}
		return a, true
	}
	for i := 0; i < n; i++ {
		key := fmt.Sprintf("const %d", i)
		if !grp.dead[key] {
			if c, ok := allEq(func(in *inst) (Lin, bool) { return in.slots[i].l, true }); ok {
				repl[i] = c
				ties[i] = &tie{rep: -1, d: c}
				fmt.Fprintf(&canon, "%s=%s;", first.slots[i].path, e.linS(c))
				continue
			}
			grp.dead[key] = true
		}
		for _, j := range reps {
			for _, k := range []int64{1, -1, 2, 3} {
				key := fmt.Sprintf("tie %d %d %d", i, j, k)
				if grp.dead[key] {
					continue
				}
				d, ok := allEq(func(in *inst) (Lin, bool) { return in.slots[i].l.addMul(in.slots[j].l, -k), true })
				if !ok {
					grp.dead[key] = true
					continue
				}
				ties[i] = &tie{rep: j, k: k, d: d}
				break
			}
			if ties[i] != nil {
				break
			}
		}
		if t := ties[i]; t != nil {
			fmt.Fprintf(&canon, "%s=%d*%s+%s;", first.slots[i].path, t.k, first.slots[t.rep].path, e.linS(t.d))
			continue
		}
		if lines != nil {
			if cs, d, ok := g.combination(lines, eqs, reps, i); ok {
				ties[i] = &tie{rep: -2, d: d, sum: cs}
				fmt.Fprintf(&canon, "%s=", first.slots[i].path)
				for j, c := range cs {
					if c != 0 {
						fmt.Fprintf(&canon, "%d*%s+", c, first.slots[reps[j]].path)
					}
				}
				fmt.Fprintf(&canon, "%s;", e.linS(d))
				continue
			}
		}
		reps = append(reps, i)
	}
	t := g.s0.fork()
	for _, i := range reps {
		p := first.slots[i].path
		x, ok := grp.sym[p]
		if !ok {
			x = e.newSym(fmt.Sprintf("%s'%d", p, g.id), first.slots[i].domOr())
			grp.sym[p] = x
		}
		repl[i] = symLin(x)
		// A small set of values, as long as it does not keep growing.
		if grp.grow[p] <= 3 {
			u := ISet{}
			for _, in := range grp.insts {
				u = u.Union(in.s.values(in.slots[i].l))
				if u.Size() > 300 {
					break
				}
			}
			if u.Size() > 300 || u.Empty() {
				grp.grow[p] = 100
			} else {
				if old, ok := grp.dom[p]; ok {
					u = u.Union(old)
					if !u.Equal(old) {
						grp.grow[p]++
					}
				}
				grp.dom[p] = u
			}
		}
		if grp.grow[p] <= 3 {
			t.iv[x] = grp.dom[p].Intersect(e.syms[x].dom)
			fmt.Fprintf(&canon, "%s in %s;", p, grp.dom[p])
		}
	}
	for i, ti := range ties {
		switch {
		case ti == nil:
		case ti.rep >= 0:
			repl[i] = repl[ti.rep].Mul(ti.k).Add(ti.d)
		case ti.sum != nil:
			l := ti.d
			for j, c := range ti.sum {
				if c != 0 {
					l = l.addMul(repl[reps[j]], c)
				}
			}
			repl[i] = l
		}
	}
	// Inequalities.
	try := func(key string, f func(slot func(int) Lin) Lin) {
		if grp.dead[key] {
			return
		}
		l := f(func(i int) Lin { return repl[i] })
		if lo, _ := t.hull(l); lo >= 0 {
			return // nothing new
		}
		for _, in := range grp.insts {
			if !in.s.entails(f(func(i int) Lin { return in.slots[i].l })) {
				grp.dead[key] = true
				return
			}
		}
		t.addCons(l)
		fmt.Fprintf(&canon, "%s>=0;", t.linStr(l))
	}
	for _, i := range reps {
		for k, p := range g.pool {
			p := p
			try(fmt.Sprintf("lo %d %d", i, k), func(sl func(int) Lin) Lin { return sl(i).Sub(p) })
			try(fmt.Sprintf("hi %d %d", i, k), func(sl func(int) Lin) Lin { return p.Sub(sl(i)) })
		}
		for _, c := range []int64{-1, 1} {
			try(fmt.Sprintf("loc %d %d", i, c), func(sl func(int) Lin) Lin { return sl(i).AddC(-c) })
		}
	}
	for i, ti := range ties {
		i := i
		if ti != nil && (ti.rep == -1 || ti.rep >= 0) && len(ti.d.T) > 0 {
			try(fmt.Sprintf("loc %d 0", i), func(sl func(int) Lin) Lin { return sl(i) })
		}
		if ti != nil && ti.sum != nil {
			try(fmt.Sprintf("loc %d 0", i), func(sl func(int) Lin) Lin { return sl(i) })
			try(fmt.Sprintf("loc %d 1", i), func(sl func(int) Lin) Lin { return sl(i).AddC(-1) })
			for k, p := range g.pool {
				p := p
				try(fmt.Sprintf("hi %d %d", i, k), func(sl func(int) Lin) Lin { return p.Sub(sl(i)) })
			}
		}
		if ti == nil || ti.rep < 0 || ti.k != 1 || !ti.d.IsConst() || ti.d.C == 0 {
			continue
		}
		for k, p := range g.pool {
			p := p
			if ti.d.C > 0 {
				try(fmt.Sprintf("hi %d %d", i, k), func(sl func(int) Lin) Lin { return p.Sub(sl(i)) })
			} else {
				try(fmt.Sprintf("lo %d %d", i, k), func(sl func(int) Lin) Lin { return sl(i).Sub(p) })
			}
		}
	}
	if g.pad != nil {
		for i, ti := range ties {
			if ti == nil || ti.rep == -1 || ti.d.IsConst() && ti.d.C == 0 {
				continue
			}
			i := i
			for k, j := range reps {
				if j != ti.rep && (k >= len(ti.sum) || ti.sum[k] == 0) {
					j := j
					try(fmt.Sprintf("le %d %d", i, j), func(sl func(int) Lin) Lin { return sl(j).Sub(sl(i)) })
					try(fmt.Sprintf("ge %d %d", i, j), func(sl func(int) Lin) Lin { return sl(i).Sub(sl(j)) })
				}
			}
		}
	}
	for a, i := range reps {
		for _, j := range reps[a+1:] {
			try(fmt.Sprintf("le %d %d", i, j), func(sl func(int) Lin) Lin { return sl(j).Sub(sl(i)) })
			try(fmt.Sprintf("ge %d %d", i, j), func(sl func(int) Lin) Lin { return sl(i).Sub(sl(j)) })
		}
	}
	// Windows within their arrays, and pieces between their ends.
	byPath := map[string]int{}
	for i, sl := range first.slots {
		byPath[sl.path] = i
	}
	for i, sl := range first.slots {
		if strings.HasSuffix(sl.path, ".lo") {
			if j, ok := byPath[strings.TrimSuffix(sl.path, ".lo")+".hi"]; ok {
				try(fmt.Sprintf("lohi %d", i), func(s func(int) Lin) Lin { return s(j).Sub(s(i)) })
			}
		}
		if strings.HasSuffix(sl.path, ".off") {
			if j, ok := byPath[strings.TrimSuffix(sl.path, ".off")+".len"]; ok {
				for k, p := range g.pool {
					p := p
					try(fmt.Sprintf("win %d %d", i, k), func(s func(int) Lin) Lin { return p.Sub(s(i)).Sub(s(j)) })
				}
			}
		}
	}
	for a, i := range reps {
		for _, j := range reps[a+1:] {
			for k, p := range g.pool {
				p := p
				try(fmt.Sprintf("sum %d %d %d", i, j, k), func(s func(int) Lin) Lin { return p.Sub(s(i)).Sub(s(j)) })
			}
			for c, m := range reps {
				if m == i || m == j {
					continue
				}
				_ = c
				try(fmt.Sprintf("sum3 %d %d %d", i, j, m), func(s func(int) Lin) Lin { return s(m).Sub(s(i)).Sub(s(j)) })
			}
		}
	}
	if g.pad != nil && !g.join && !g.drive {
		// What all of them know of symbols that are older than the loop.
		if grp.canon == "" {
			s := first.s
			for _, c := range s.cons {
				if g.s0only(c) && !g.s0.entails(c) {
					grp.older = append(grp.older, c)
				}
			}
			for x := range s.iv {
				if x >= g.maxSym0 {
					continue
				}
				if r, f := s.rootOf(x); f != nil || r != x {
					continue
				}
				lo, hi := s.rootSet(x).Hull()
				lo0, hi0 := g.s0.hull(symLin(x))
				if lo > lo0 {
					grp.older = append(grp.older, symLin(x).AddC(-lo))
				}
				if hi < hi0 {
					grp.older = append(grp.older, symLin(x).Neg().AddC(hi))
				}
			}
			sort.Slice(grp.older, func(i, j int) bool { return grp.older[i].Key() < grp.older[j].Key() })
		}
		for i, c := range grp.older {
			c := c
			try(fmt.Sprintf("old %d", i), func(func(int) Lin) Lin { return c })
		}
	}
	changed := canon.String() != grp.canon
	grp.canon = canon.String()
	re := &inst{s: first.s, sig: grp.key}
	g.walk(re, repl, t)
	g.aliasWindows(t)
	// The length of an array does not change.
	for o := range g.tracked {
		x, y := t.heap[o], g.s0.obj(o)
		if x != nil && y != nil && x.kind == oArr {
			d := x.rope.Len().Sub(y.rope.Len())
			t.addCons(d)
			t.addCons(d.Neg())
		}
	}
	if e.stream != nil && (g.drive || g.pad != nil) {
		e.stream.seed(t)
	}
	grp.tmpl, grp.repl, grp.slots = t, repl, first.slots
	return changed
}

func (sl slotVal) domOr() ISet {
	if sl.dom != nil {
		return sl.dom
	}
	return ivSet(negInf, posInf)
}

func (e *Engine) linS(l Lin) string { return linName(e, l) + "/" + l.Key() }

// aliasWindows adds what holds for every slice: it is within its array.
func (g *generaliser) aliasWindows(t *State) {
	add := func(v Value) {
		if x, ok := v.(VSlice); ok && x.O != 0 {
			if o := t.obj(x.O); o != nil {
				end := o.rope.Len()
				if x.Max != nil {
					end = *x.Max
					t.addCons(o.rope.Len().Sub(end))
				}
				t.addCons(end.Sub(x.Off).Sub(x.Len))
			}
		}
	}
	for _, v := range sortedRegs(t.frame) {
		add(t.frame.regs[v])
	}
	for _, o := range t.objIDs() {
		x := t.heap[o]
		if x.kind == oCell {
			if st, ok := x.val.(VStruct); ok {
				for _, f := range st.F {
					add(f)
				}
			} else {
				add(x.val)
			}
		}
	}
}

// terminates looks for a measure that grows on every way round and is
// bounded, and records the obligation that there is one.
func (g *generaliser) terminates(backs []*inst) {
	e := g.e
	key := e.siteKey(g.l.head.Instrs[0]) + " termination"
	if g.drive || g.asks {
		return
	}
	if len(backs) == 0 || rangeLoop(g.l) {
		if _, ok := e.log.obls[key]; !ok {
			e.log.obls[key] = true
		}
		return
	}
	val := func(slots []slotVal, repl []Lin, path string) (Lin, bool) {
		for i, sl := range slots {
			if sl.path == path {
				if repl != nil {
					return repl[i], true
				}
				return sl.l, true
			}
		}
		return Lin{}, false
	}
	// Slots of the arrived states under the template they came from.
	type step struct {
		in   *inst
		here *inst
	}
	var steps []step
	for _, b := range backs {
		h := &inst{s: b.s.fork()}
		g.walk(h, nil, nil)
		steps = append(steps, step{b, h})
	}
	paths := map[string]bool{}
	for _, k := range g.order {
		for _, sl := range g.groups[k].slots {
			paths[sl.path] = true
		}
	}
	var ps []string
	for p := range paths {
		ps = append(ps, p)
	}
	sortStrings(ps)
	type measure struct {
		ps []string
		ks []int64
	}
	var ms []measure
	for _, p := range ps {
		ms = append(ms, measure{[]string{p}, []int64{1}}, measure{[]string{p}, []int64{-1}})
	}
	if len(ps) <= 24 {
		for i, p := range ps {
			for _, q := range ps[i+1:] {
				ms = append(ms, measure{[]string{p, q}, []int64{1, -1}}, measure{[]string{p, q}, []int64{-1, 1}})
			}
		}
	}
	for _, m := range ms {
		eval := func(slots []slotVal, repl []Lin) (Lin, bool) {
			var l Lin
			for i, p := range m.ps {
				x, ok := val(slots, repl, p)
				if !ok {
					return Lin{}, false
				}
				l = l.addMul(x, m.ks[i])
			}
			return l, true
		}
		good := true
		for _, st := range steps {
			a, ok1 := eval(st.in.par.slots, st.in.par.repl)
			b, ok2 := eval(st.here.slots, nil)
			if !ok1 || !ok2 || !st.here.s.entails(b.Sub(a).AddC(-1)) {
				good = false
				break
			}
			bounded := false
			for _, p := range g.pool {
				for _, q := range []Lin{p, p.Neg(), p.AddC(1), p.Neg().AddC(1)} {
					if st.here.s.entails(q.Sub(b)) {
						bounded = true
						break
					}
				}
				if bounded {
					break
				}
			}
			if !bounded {
				good = false
				break
			}
		}
		if good {
			if _, ok := e.log.obls[key]; !ok {
				e.log.obls[key] = true
			}
			return
		}
	}
	e.log.obls[key] = false
	e.log.findings = append(e.log.findings, Finding{Kind: "termination", Site: g.l.head.Instrs[0], Fn: g.fn, Msg: "no bounded measure grows on every way round the loop"})
}

// rangeLoop: the loop's head advances an iterator over a string or map, which
// takes at most as many rounds as there are elements.
func rangeLoop(l *loopT) bool {
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			r, ok := nx.Iter.(*ssa.Range)
			return ok && !l.blocks[r.Block()]
		}
	}
	return false
}

func hasHom(r Rope) bool {
	for _, p := range r {
		if p.K == pHom {
			return true
		}
	}
	return false
}

var maxGroups = [3]int{16, 24, 40}

// mentioned finds the symbols a state says something about.
func mentioned(s *State) map[Sym]bool {
	out := map[Sym]bool{}
	ln := func(ls ...Lin) {
		for _, l := range ls {
			for _, t := range l.T {
				out[t.S] = true
			}
		}
	}
	for x := range s.iv {
		out[x] = true
	}
	for _, c := range s.cons {
		ln(c)
	}
	var val func(v Value)
	rope := func(r Rope) {
		for _, p := range r {
			ln(p.Lo, p.Hi, p.Ln)
			for _, v := range p.V {
				val(v)
			}
		}
	}
	val = func(v Value) {
		switch v := v.(type) {
		case VInt:
			ln(v.L)
		case VBool:
			ln(v.C.L)
		case VIface:
			val(v.V)
		case VPtr:
			if v.Idx != nil {
				ln(*v.Idx)
			}
		case VSlice:
			ln(v.Off, v.Len)
			if v.Max != nil {
				ln(*v.Max)
			}
		case VStr:
			rope(v.R)
		case VArr:
			rope(v.R)
		case VBuilder:
			rope(v.R)
		case VStruct:
			for _, f := range v.F {
				val(f)
			}
		case VTuple:
			for _, f := range v {
				val(f)
			}
		case VFunc:
			for _, f := range v.Free {
				val(f)
			}
		}
	}
	for f := s.frame; f != nil; f = f.parent {
		for _, v := range f.regs {
			val(v)
		}
	}
	for _, v := range s.ghosts {
		val(v)
	}
	for o, x := range s.heap {
		if s.e.base[o] == x {
			continue
		}
		val(x.val)
		rope(x.rope)
	}
	return out
}

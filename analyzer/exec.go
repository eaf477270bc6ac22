package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine runs the abstract interpretation.
type Engine struct {
	prog    *ssa.Program
	module  string
	syms    []SymInfo
	base    map[ObjID]*Obj // heap after package initialisation
	globals map[*ssa.Global]ObjID
	nobj    int
	idc     int64
	nfresh  int
	nforks  int
	nseq    int
	initing bool
	depth   int
	nondet  int
	steps   int

	linearFork bool
	iterFork   bool
	reverse    bool // range over maps in reverse order
	mapRanges  int
	log        *Log
	homs       []*Hom
	readSyms   map[string]Sym
	readList   map[int][]readRec
	readOf     map[Sym]readDef
	strAtoms   map[string]Sym
	lens       map[string]Sym
	named      map[string]*Seq
	funcsSeen  map[*ssa.Function]bool
	callsSeen  map[ssa.Instruction]bool
	loopsGen   map[string]string
	deadline   time.Time
	loopInfo   map[*ssa.Function]*loopNest
	anchors    []Lin
	onWrite    func(s *State, o ObjID, site ssa.Instruction)
	ext        map[string]handler // methods of environment values
	modelsUsed map[string]int
	runeDefs   map[Sym]readDef
	mism       map[string]bool
	targets    []target
	live       map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	pinned     map[Sym]bool
	keys       map[ssa.Instruction]string
	hulls      map[hullKey]hullVal
	roots      map[ObjID]bool // objects the environment refers to
	stream     *stream        // the environment of a driver
	envCalls   map[*ssa.Function]bool
	searches   map[string]map[int64]int64 // results of sort.Search
}

// handler models a method of a value of the environment.
type handler func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV

func newEngine(prog *ssa.Program, module string) *Engine {
	return &Engine{
		prog: prog, module: module,
		base: map[ObjID]*Obj{}, globals: map[*ssa.Global]ObjID{}, log: newLog(),
		readSyms: map[string]Sym{}, readList: map[int][]readRec{}, readOf: map[Sym]readDef{},
		strAtoms: map[string]Sym{}, lens: map[string]Sym{}, named: map[string]*Seq{},
		funcsSeen: map[*ssa.Function]bool{}, callsSeen: map[ssa.Instruction]bool{},
		loopsGen: map[string]string{}, loopInfo: map[*ssa.Function]*loopNest{},
		ext: map[string]handler{}, modelsUsed: map[string]int{}, runeDefs: map[Sym]readDef{},
		mism: map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		pinned: map[Sym]bool{}, hulls: map[hullKey]hullVal{}, keys: map[ssa.Instruction]string{}, roots: map[ObjID]bool{},
	}
}

// Log collects what a run of a piece of code established.
type Log struct {
	findings []Finding
	obls     map[string]bool // obligation key -> discharged on all visits
	events   []Event
}

type Finding struct {
	Kind  string // panic, undecided, write
	Site  ssa.Instruction
	Where string // if not Site
	Fn    *ssa.Function
	Msg   string
}

// Event is a side effect the checks may be interested in.
type Event struct {
	Kind   string
	Site   ssa.Instruction
	Origin Origin
	Msg    string
}

func newLog() *Log { return &Log{obls: map[string]bool{}} }

func (l *Log) add(m *Log) {
	l.findings = append(l.findings, m.findings...)
	l.events = append(l.events, m.events...)
	for k, v := range m.obls {
		if old, ok := l.obls[k]; ok {
			v = v && old
		}
		l.obls[k] = v
	}
}

type undecidedErr struct{ f Finding }

// undecided gives up on the current path: the property is not established.
func (e *Engine) undecided(site ssa.Instruction, format string, args ...interface{}) {
	f := Finding{Kind: "undecided", Site: site, Msg: fmt.Sprintf(format, args...)}
	if site != nil {
		f.Fn = site.Parent()
	}
	e.log.findings = append(e.log.findings, f)
}

func (e *Engine) noteFork(s *State, c Cond, linear bool) {
	if linear {
		e.linearFork = true
	}
}

// SV is an outcome of an operation: a state and the value in it.
type SV struct {
	S *State
	V Value
}

func one(s *State, v Value) []SV { return []SV{{s, v}} }

// require is an obligation (e.g. an index in range). It returns the state in
// which it holds, nil if it cannot.
func (e *Engine) require(s *State, site ssa.Instruction, kind string, c Cond) *State {
	key := e.siteKey(site) + " " + kind
	if s.entailsCond(c) {
		if _, ok := e.log.obls[key]; !ok {
			e.log.obls[key] = true
		}
		return s
	}
	lf := e.linearFork
	desc := ""
	y, n := s.split(c)
	e.linearFork = lf
	if n != nil {
		desc = n.describe()
		e.log.obls[key] = false
		e.log.findings = append(e.log.findings, Finding{Kind: "panic", Site: site, Fn: site.Parent(), Msg: fmt.Sprintf("%s possible when %s (needs %s)", kind, desc, n.condStr(c))})
	} else if _, ok := e.log.obls[key]; !ok {
		e.log.obls[key] = true
	}
	return y
}

func (s *State) condStr(c Cond) string {
	return s.linStr(c.L) + [...]string{" == 0", " != 0", " >= 0"}[c.Op]
}

func (e *Engine) siteKey(site ssa.Instruction) string {
	if site == nil {
		return "?"
	}
	if k, ok := e.keys[site]; ok {
		return k
	}
	b := site.Block()
	name := site.Parent().String()
	for i, in := range b.Instrs {
		e.keys[in] = fmt.Sprintf("%s:b%d.%d", name, b.Index, i)
	}
	return e.keys[site]
}

func (e *Engine) pos(site ssa.Instruction) string {
	if site == nil {
		return "?"
	}
	p := site.Pos()
	if !p.IsValid() {
		// Fall back to the closest position in the block.
		for _, in := range site.Block().Instrs {
			if in.Pos().IsValid() {
				p = in.Pos()
			}
			if in == site && p.IsValid() {
				break
			}
		}
	}
	if !p.IsValid() {
		p = site.Parent().Pos()
	}
	return e.posStr(p)
}

func (e *Engine) posStr(p token.Pos) string {
	q := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", relPath(q.Filename), q.Line)
}

var descLimit = 6

func init() {
	if os.Getenv("HG_LONG") != "" {
		descLimit = 1000
	}
}

// describe names the cell of the state for reports.
func (s *State) describe() string {
	var parts []string
	for r, set := range s.iv {
		if set.Equal(s.e.syms[r].dom) {
			continue
		}
		parts = append(parts, fmt.Sprintf("%s in %s", s.e.syms[r].name, set))
	}
	sort.Strings(parts)
	if len(parts) > descLimit {
		parts = append(parts[:descLimit], "..")
	}
	var cs []string
	for _, c := range s.cons {
		if len(c.T) > 1 {
			cs = append(cs, s.linStr(c)+">=0")
		}
		if len(cs) == descLimit {
			break
		}
	}
	parts = append(parts, cs...)
	out := ""
	for i, p := range parts {
		if i > 0 {
			out += "; "
		}
		out += p
	}
	if out == "" {
		return "always"
	}
	return out
}

// ---- functions, regions, loops ----

type loopT struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopT
	depth  int
}

type loopNest struct {
	inner map[*ssa.BasicBlock]*loopT // innermost loop of each block
	heads map[*ssa.BasicBlock]*loopT
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
	irred bool
}

func (e *Engine) nest(fn *ssa.Function) *loopNest {
	if n, ok := e.loopInfo[fn]; ok {
		return n
	}
	n := &loopNest{inner: map[*ssa.BasicBlock]*loopT{}, heads: map[*ssa.BasicBlock]*loopT{}, rpo: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, x := range b.Succs {
			if !seen[x] {
				dfs(x)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		n.rpo[post[i]] = len(n.order)
		n.order = append(n.order, post[i])
	}
	for _, b := range n.order {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				if n.rpo[h] <= n.rpo[b] {
					n.irred = true
				}
				continue
			}
			l := n.heads[h]
			if l == nil {
				l = &loopT{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				n.heads[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range n.heads {
		for _, m := range n.heads {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, b := range n.order {
		for _, l := range n.heads {
			if l.blocks[b] && (n.inner[b] == nil || len(l.blocks) < len(n.inner[b].blocks)) {
				n.inner[b] = l
			}
		}
	}
	e.loopInfo[fn] = n
	return n
}

type result struct {
	exits map[*ssa.BasicBlock][]*State
	backs []*State
	rets  []SV
	abort bool
}

func (r *result) exit(b *ssa.BasicBlock, s *State) {
	if r.exits == nil {
		r.exits = map[*ssa.BasicBlock][]*State{}
	}
	r.exits[b] = append(r.exits[b], s)
}

const maxDepth = 60

// call analyses fn on args, inlined.
func (e *Engine) call(s *State, fn *ssa.Function, args []Value, free []Value, site ssa.Instruction) []SV {
	if fn.Blocks == nil {
		e.undecided(site, "no body for %s", fn)
		return nil
	}
	e.funcsSeen[fn] = true
	if e.depth >= maxDepth {
		e.undecided(site, "call depth of %s not bounded", fn)
		return nil
	}
	e.depth++
	defer func() { e.depth-- }()
	n := e.nest(fn)
	if n.irred {
		e.undecided(site, "irreducible control flow in %s", fn)
		return nil
	}
	s.push(fn)
	for i, p := range fn.Params {
		s.set(p, args[i])
	}
	for i, p := range fn.FreeVars {
		s.set(p, free[i])
	}
	r := e.region(fn, n, nil, map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {s}}, false)
	for i := range r.rets {
		r.rets[i].S.pop()
	}
	return r.rets
}

func (e *Engine) expired() bool { return !e.deadline.IsZero() && time.Now().After(e.deadline) }

// region runs the blocks of loop l (nil: of the whole function) once, from
// the given pending states, inner loops to completion.
func (e *Engine) region(fn *ssa.Function, n *loopNest, l *loopT, pending map[*ssa.BasicBlock][]*State, probe bool) *result {
	if !e.asking(fn) {
		return e.regionFrom(fn, n, l, pending, probe, nil, 0)
	}
	// The states are taken one by one, to know what the later ones come from.
	total := &result{}
	for _, b := range n.order {
		for _, s := range pending[b] {
			base := s.fork()
			r := e.regionFrom(fn, n, l, map[*ssa.BasicBlock][]*State{b: {s}}, probe, base, Sym(len(e.syms)))
			total.rets = append(total.rets, r.rets...)
			total.backs = append(total.backs, r.backs...)
			for _, to := range n.order {
				for _, x := range r.exits[to] {
					total.exit(to, x)
				}
			}
			total.abort = total.abort || r.abort
		}
	}
	return total
}

func (e *Engine) regionFrom(fn *ssa.Function, n *loopNest, l *loopT, pending map[*ssa.BasicBlock][]*State, probe bool, base *State, maxSym Sym) *result {
	res := &result{}
	for _, b := range n.order {
		if l != nil && !l.blocks[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		delete(pending, b)
		in := n.inner[b]
		deliver := func(to *ssa.BasicBlock, s *State) {
			switch {
			case l != nil && to == l.head:
				res.backs = append(res.backs, s)
			case l != nil && !l.blocks[to]:
				res.exit(to, s)
			default:
				pending[to] = append(pending[to], s)
			}
		}
		if in != l {
			// b must be the head of a loop directly inside l.
			ins = e.merge(ins, b)
			r := e.loop(fn, n, in, ins)
			res.rets = append(res.rets, r.rets...)
			for _, to := range n.order {
				for _, s := range r.exits[to] {
					deliver(to, s)
				}
			}
			continue
		}
		if len(ins) > 1 && !(l != nil && b == l.head) {
			ins = e.merge(ins, b)
			if base != nil && len(ins) > 1 {
				ins = e.joinAt(fn, b, base, maxSym, ins, false)
			}
		}
		for _, s := range ins {
			if e.expired() {
				e.undecided(b.Instrs[0], "analysis time exceeded")
				return res
			}
			e.block(s, b, l, probe, res, deliver)
			if res.abort {
				return res
			}
		}
	}
	return res
}

type todo struct {
	s *State
	i int
}

// block runs one block from one state.
func (e *Engine) block(s *State, b *ssa.BasicBlock, l *loopT, probe bool, res *result, deliver func(*ssa.BasicBlock, *State)) {
	work := []todo{{s, 0}}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		s := t.s
	instrs:
		for i := t.i; i < len(b.Instrs); i++ {
			e.steps++
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
				// Phis are evaluated on the edges.
			case *ssa.Jump:
				e.edge(s, b, b.Succs[0], 0)
				deliver(b.Succs[0], s)
				break instrs
			case *ssa.If:
				c, ok := s.val(in.Cond).(VBool)
				if !ok {
					e.undecided(in, "branch on %s", s.valStr(s.val(in.Cond)))
					break instrs
				}
				e.linearFork = false
				y, no := s.split(c.C)
				leaves := l != nil && l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]]
				if probe && e.linearFork && leaves {
					res.abort = true
					return
				}
				if y != nil {
					e.edge(y, b, b.Succs[0], 0)
					deliver(b.Succs[0], y)
				}
				if no != nil {
					e.edge(no, b, b.Succs[1], 1)
					deliver(b.Succs[1], no)
				}
				break instrs
			case *ssa.Return:
				var v Value
				switch len(in.Results) {
				case 0:
					v = VTuple{}
				case 1:
					v = s.val(in.Results[0])
				default:
					tu := make(VTuple, len(in.Results))
					for j, r := range in.Results {
						tu[j] = s.val(r)
					}
					v = tu
				}
				res.rets = append(res.rets, SV{s, v})
				break instrs
			case *ssa.Panic:
				e.log.obls[e.siteKey(in)+" panic"] = false
				e.log.findings = append(e.log.findings, Finding{Kind: "panic", Site: in, Fn: in.Parent(), Msg: "explicit panic reached when " + s.describe()})
				break instrs
			case *ssa.Defer:
				if !e.deferCall(s, in) {
					break instrs
				}
			case *ssa.RunDefers:
				outs := e.runDefers(s, in)
				for _, o := range outs[min(1, len(outs)):] {
					work = append(work, todo{o, i + 1})
				}
				if len(outs) == 0 {
					break instrs
				}
				s = outs[0]
			case *ssa.Store:
				outs := e.store(s, in, s.val(in.Addr), s.val(in.Val))
				for _, o := range outs[min(1, len(outs)):] {
					work = append(work, todo{o, i + 1})
				}
				if len(outs) == 0 {
					break instrs
				}
				s = outs[0]
			case *ssa.MapUpdate:
				if !e.mapUpdate(s, in) {
					break instrs
				}
			case ssa.Value:
				e.iterFork = false
				outs := e.eval(s, in, b.Instrs[i])
				if _, isNext := b.Instrs[i].(*ssa.Next); isNext && probe && e.iterFork {
					res.abort = true
					return
				}
				if len(outs) == 0 {
					break instrs
				}
				for _, o := range outs {
					o.S.set(in, o.V)
				}
				for _, o := range outs[1:] {
					work = append(work, todo{o.S, i + 1})
				}
				s = outs[0].S
			default:
				e.undecided(b.Instrs[i], "instruction %T", in)
				break instrs
			}
		}
	}
}

// edge assigns the phis of the target.
func (e *Engine) edge(s *State, from, to *ssa.BasicBlock, succ int) {
	pi := -1
	cnt := 0
	same := 0
	for j := 0; j < succ; j++ {
		if from.Succs[j] == to {
			same++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if cnt == same {
				pi = i
				break
			}
			cnt++
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, s.val(p.Edges[pi]))
	}
	for i, p := range phis {
		s.set(p, vals[i])
	}
}

const unrollLimit = 60000

// loop runs a loop to completion: by iterating while its control is decided
// in each cell, else by an inductive generalisation of the head state.
func (e *Engine) loop(fn *ssa.Function, n *loopNest, l *loopT, ins []*State) *result {
	total := &result{}
	drive := e.driving(fn)
	asks := e.stream != nil && e.loopAsks(l)
	for _, s0 := range ins {
		save := s0.fork()
		maxSym := Sym(len(e.syms))
		outer := e.log
		e.log = newLog()
		nd := e.nondet
		part := &result{}
		cur := []*State{s0}
		gen := false
		for round := 0; len(cur) > 0; round++ {
			if drive || asks && (round >= 8 || e.asking(fn)) {
				gen = true
				break
			}
			r := e.region(fn, n, l, map[*ssa.BasicBlock][]*State{l.head: cur}, !asks)
			if r.abort || !asks && e.nondet != nd || round >= unrollLimit || len(r.backs) > 70000 {
				gen = true
				break
			}
			part.rets = append(part.rets, r.rets...)
			for _, b := range n.order {
				for _, s := range r.exits[b] {
					part.exit(b, s)
				}
			}
			cur = r.backs
			if debugLoop && len(cur) > 0 {
				fmt.Printf("unroll %s round %d: %d states, %d rets\n", e.pos(l.head.Instrs[0]), round, len(cur), len(part.rets))
				if os.Getenv("HG_LOOP") == "3" {
					for _, v := range sortedRegs(cur[0].frame) {
						fmt.Printf("   %s = %s\n", v.Name(), cur[0].valStr(cur[0].frame.regs[v]))
					}
					fmt.Println("  ", cur[0].describe())
				}
			}
			if len(cur) > 1 {
				cur = e.merge(cur, l.head)
			}
			if asks && len(cur) > 1 && e.asking(fn) {
				cur = e.joinAt(fn, l.head, save, maxSym, cur, true)
			}
		}
		if gen {
			e.log = newLog()
			part = e.generalise(fn, n, l, save)
		}
		outer.add(e.log)
		e.log = outer
		total.rets = append(total.rets, part.rets...)
		for _, b := range n.order {
			for _, s := range part.exits[b] {
				total.exit(b, s)
			}
		}
	}
	return total
}

// ---- operands ----

func (s *State) val(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return s.e.constVal(v)
	case *ssa.Global:
		return s.e.globalPtr(s, v)
	case *ssa.Function:
		return VFunc{F: v}
	case *ssa.Builtin:
		return VFunc{B: v}
	}
	if x, ok := s.frame.regs[v]; ok {
		return x
	}
	return VUnk{"no value for " + v.Name()}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolVal(constant.BoolVal(c.Value))
	case constant.String:
		return VStr{constRope(constant.StringVal(c.Value))}
	case constant.Int:
		if isInteger(c.Type()) {
			if i, ok := constant.Int64Val(c.Value); ok {
				return VInt{konst(i)}
			}
			if u, ok := constant.Uint64Val(c.Value); ok {
				return VInt{konst(int64(u))}
			}
		}
	}
	return VUnk{"constant " + c.String()}
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) Value {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "strings.Builder", "bytes.Buffer":
			return VBuilder{}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{}
		case u.Info()&types.IsBoolean != 0:
			return boolVal(false)
		case u.Info()&types.IsString != 0:
			return VStr{}
		}
	case *types.Slice:
		return VSlice{}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan, *types.Interface:
		return VNil{}
	case *types.Struct:
		st := VStruct{make([]Value, u.NumFields())}
		for i := range st.F {
			st.F[i] = zeroOf(u.Field(i).Type())
		}
		return st
	case *types.Array:
		return VArr{zeroRope(u)}
	case *types.Tuple:
		tu := make(VTuple, u.Len())
		for i := range tu {
			tu[i] = zeroOf(u.At(i).Type())
		}
		return tu
	}
	return VUnk{"zero of " + t.String()}
}

func zeroRope(a *types.Array) Rope {
	if a.Len() == 0 {
		return nil
	}
	vs := make([]Value, a.Len())
	for i := range vs {
		vs[i] = zeroOf(a.Elem())
	}
	return Rope{elems(vs...)}
}

// globalPtr is the address of a package-level variable.
func (e *Engine) globalPtr(s *State, g *ssa.Global) Value {
	if o, ok := e.globals[g]; ok {
		return VPtr{O: o}
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	obj := &Obj{kind: oCell, origin: origGlobal, name: g.String()}
	if !e.inModule(g.Pkg.Pkg) {
		// A variable of another package: an opaque constant. Only error
		// values are given an identity.
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			obj.val = VErr{g.Pkg.Pkg.Path() + "." + g.Name()}
		} else {
			obj.val = VExt{g.Pkg.Pkg.Path() + "." + g.Name()}
		}
	} else {
		if a, ok := t.Underlying().(*types.Array); ok {
			obj.kind, obj.rope = oArr, zeroRope(a)
		} else {
			obj.val = zeroOf(t)
		}
	}
	e.nobj++
	id := ObjID(e.nobj)
	e.base[id] = obj
	e.globals[g] = id
	return VPtr{O: id}
}

func (e *Engine) inModule(p *types.Package) bool {
	return p.Path() == e.module || len(p.Path()) > len(e.module) && p.Path()[:len(e.module)+1] == e.module+"/"
}

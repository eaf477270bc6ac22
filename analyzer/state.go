package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// tabLimit bounds the root domains on which values are tabulated.
const tabLimit = 1 << 21

// maxLen bounds lengths and capacities: an assumption, not a check.
const maxLen = int64(1) << 48

type SymInfo struct {
	name string
	dom  ISet
	def  *Def
}

// Def defines a symbol as a finite function of another one.
type Def struct {
	root Sym
	f    func(int64) int64
}

// State is one disjunct of the abstract state: a cell of the input space
// (iv, cons), and the registers and heap in it.
type State struct {
	e      *Engine
	id     int64
	iv     map[Sym]ISet
	defs   map[Sym]*Def
	cons   []Lin
	facts  map[string]Lin
	wits   []wit
	frame  *Frame
	heap   map[ObjID]*Obj
	ghosts map[string]Value
	trace  []string // how the cell was chosen, for reports
}

type Frame struct {
	parent *Frame
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	shared bool
}

func (e *Engine) newSym(name string, dom ISet) Sym {
	e.syms = append(e.syms, SymInfo{name: name, dom: dom})
	return Sym(len(e.syms) - 1)
}

func (e *Engine) freshLen(name string) Sym {
	e.nfresh++
	return e.newSym(fmt.Sprintf("%s#%d", name, e.nfresh), ivSet(0, maxLen))
}

func (e *Engine) nextID() int64 { e.idc++; return e.idc }

func (e *Engine) newState() *State {
	return &State{e: e, id: e.nextID(), iv: map[Sym]ISet{}, defs: map[Sym]*Def{}, facts: map[string]Lin{}, heap: map[ObjID]*Obj{}, ghosts: map[string]Value{}}
}

// fork returns an independent copy; both lose in-place ownership of objects.
func (s *State) fork() *State {
	t := &State{e: s.e, id: s.e.nextID(), cons: s.cons[:len(s.cons):len(s.cons)], trace: s.trace[:len(s.trace):len(s.trace)]}
	s.id = s.e.nextID()
	t.iv = make(map[Sym]ISet, len(s.iv))
	for k, v := range s.iv {
		t.iv[k] = v
	}
	t.defs = make(map[Sym]*Def, len(s.defs))
	for k, v := range s.defs {
		t.defs[k] = v
	}
	t.facts = make(map[string]Lin, len(s.facts))
	for k, v := range s.facts {
		t.facts[k] = v
	}
	t.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		t.heap[k] = v
	}
	t.ghosts = make(map[string]Value, len(s.ghosts))
	for k, v := range s.ghosts {
		t.ghosts[k] = v
	}
	t.frame = s.frame
	t.wits = s.wits[:len(s.wits):len(s.wits)]
	for f := s.frame; f != nil && !f.shared; f = f.parent {
		f.shared = true
	}
	s.e.nforks++
	return t
}

func (s *State) set(v ssa.Value, x Value) {
	f := s.frame
	if f.shared {
		n := &Frame{parent: f.parent, fn: f.fn, regs: make(map[ssa.Value]Value, len(f.regs)+1)}
		for k, v := range f.regs {
			n.regs[k] = v
		}
		s.frame, f = n, n
	}
	f.regs[v] = x
}

func (s *State) push(fn *ssa.Function) {
	s.frame = &Frame{parent: s.frame, fn: fn, regs: map[ssa.Value]Value{}}
}

func (s *State) pop() { s.frame = s.frame.parent }

// ---- heap ----

func (s *State) obj(o ObjID) *Obj {
	if x, ok := s.heap[o]; ok {
		return x
	}
	return s.e.base[o]
}

func (s *State) mut(o ObjID) *Obj {
	x := s.obj(o)
	if x.owner == s.id {
		return x
	}
	c := *x
	c.owner = s.id
	if x.kind == oMap && x.m != nil {
		m := &MapObj{ints: map[int64]Value{}, strs: map[string]Value{}, top: x.m.top}
		for k, v := range x.m.ints {
			m.ints[k] = v
		}
		for k, v := range x.m.strs {
			m.strs[k] = v
		}
		c.m = m
	}
	if x.kind == oArr {
		c.rope = append(Rope{}, x.rope...)
		for i := range c.rope {
			if c.rope[i].K == pElems {
				c.rope[i].V = append([]Value{}, c.rope[i].V...)
			}
		}
	}
	if st, ok := x.val.(VStruct); ok {
		c.val = VStruct{append([]Value{}, st.F...)}
	}
	s.heap[o] = &c
	return &c
}

func (s *State) alloc(o *Obj) ObjID {
	s.e.nobj++
	id := ObjID(s.e.nobj)
	o.owner = s.id
	if s.e.initing {
		o.origin = origGlobal
	} else if o.origin == 0 {
		o.origin = origFresh
	}
	s.heap[id] = o
	return id
}

// ---- symbols: roots, sets ----

// rootOf resolves a symbol to the root symbol it is a function of.
func (s *State) rootOf(x Sym) (Sym, func(int64) int64) {
	var fs []func(int64) int64
	for {
		d := s.e.syms[x].def
		if o, ok := s.defs[x]; ok {
			d = o
		}
		if d == nil {
			break
		}
		fs = append(fs, d.f)
		x = d.root
	}
	switch len(fs) {
	case 0:
		return x, nil
	case 1:
		return x, fs[0]
	}
	return x, func(v int64) int64 {
		for i := len(fs) - 1; i >= 0; i-- {
			v = fs[i](v)
		}
		return v
	}
}

func (s *State) rootSet(r Sym) ISet {
	if v, ok := s.iv[r]; ok {
		return v
	}
	return s.e.syms[r].dom
}

// tab returns the single root a linear form depends on and the form as a
// function of it, if that root is small enough to tabulate (or l is affine
// in an underived root: fn is then still valid, big is true).
type tabForm struct {
	root   Sym
	f      func(int64) int64
	affine bool // C + K*root
	k      int64
	small  bool
}

func (s *State) roots(l Lin) []Sym {
	var out []Sym
	for _, t := range l.T {
		r, _ := s.rootOf(t.S)
		dup := false
		for _, o := range out {
			if o == r {
				dup = true
			}
		}
		if !dup {
			out = append(out, r)
		}
	}
	return out
}

func (s *State) tab(l Lin) (tabForm, bool) {
	if l.IsConst() {
		return tabForm{}, false
	}
	rs := s.roots(l)
	if len(rs) != 1 {
		return tabForm{}, false
	}
	tf := tabForm{root: rs[0]}
	tf.small = s.rootSet(rs[0]).Size() <= tabLimit
	if len(l.T) == 1 {
		_, f := s.rootOf(l.T[0].S)
		if f == nil {
			k, c := l.T[0].K, l.C
			tf.affine, tf.k = true, k
			tf.f = func(v int64) int64 { return k*v + c }
			return tf, true
		}
		k, c := l.T[0].K, l.C
		if k == 1 && c == 0 {
			tf.f = f
		} else {
			tf.f = func(v int64) int64 { return k*f(v) + c }
		}
		return tf, true
	}
	type term struct {
		k int64
		f func(int64) int64
	}
	var ts []term
	for _, t := range l.T {
		_, f := s.rootOf(t.S)
		ts = append(ts, term{t.K, f})
	}
	c := l.C
	tf.f = func(v int64) int64 {
		x := c
		for _, t := range ts {
			if t.f == nil {
				x += t.k * v
			} else {
				x += t.k * t.f(v)
			}
		}
		return x
	}
	return tf, true
}

// hull bounds a linear form.
func (s *State) hull(l Lin) (int64, int64) {
	if l.IsConst() {
		return l.C, l.C
	}
	if tf, ok := s.tab(l); ok {
		set := s.rootSet(tf.root)
		if tf.affine {
			lo, hi := set.Hull()
			lo, hi = satMul(lo, tf.k), satMul(hi, tf.k)
			if tf.k < 0 {
				lo, hi = hi, lo
			}
			return satAdd(lo, l.C), satAdd(hi, l.C)
		}
		if tf.small && !set.Empty() {
			key := hullKey{l.Key(), tf.root, &set[0], len(set)}
			if h, ok := s.e.hulls[key]; ok {
				return h.lo, h.hi
			}
			first := true
			var lo, hi int64
			defer func() { s.e.hulls[key] = hullVal{lo, hi, set} }()
			set.Each(func(v int64) bool {
				x := tf.f(v)
				if first || x < lo {
					lo = x
				}
				if first || x > hi {
					hi = x
				}
				first = false
				return true
			})
			return lo, hi
		}
	}
	lo, hi := l.C, l.C
	for _, t := range l.T {
		a, b := s.symHull(t.S)
		a, b = satMul(a, t.K), satMul(b, t.K)
		if t.K < 0 {
			a, b = b, a
		}
		lo, hi = satAdd(lo, a), satAdd(hi, b)
	}
	return lo, hi
}

// hullKey identifies a form, its root and the root's set (sets are immutable,
// and kept alive by the cache).
type hullKey struct {
	l    string
	root Sym
	set  *Iv
	n    int
}

type hullVal struct {
	lo, hi int64
	set    ISet
}

func (s *State) symHull(x Sym) (int64, int64) {
	r, f := s.rootOf(x)
	if f == nil {
		return s.rootSet(r).Hull()
	}
	if s.rootSet(r).Size() <= tabLimit {
		return s.hull(symLin(x))
	}
	return s.e.syms[x].dom.Hull()
}

func satMul(a, k int64) int64 {
	if a <= negInf || a >= posInf {
		if k == 0 {
			return 0
		}
		if (a <= negInf) == (k > 0) {
			return negInf
		}
		return posInf
	}
	x := a * k
	if k != 0 && (x/k != a || x <= negInf || x >= posInf) {
		if (a < 0) == (k > 0) {
			return negInf
		}
		return posInf
	}
	return x
}

func satAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	x := a + b
	if x <= negInf {
		return negInf
	}
	if x >= posInf {
		return posInf
	}
	return x
}

// values returns the set of values of a small single-root form, else its hull.
func (s *State) values(l Lin) ISet {
	if l.IsConst() {
		return ivSet(l.C, l.C)
	}
	if tf, ok := s.tab(l); ok {
		set := s.rootSet(tf.root)
		if tf.affine && (tf.k == 1 || tf.k == -1) {
			var out ISet
			for _, v := range set {
				a, b := satAdd(satMul(v.Lo, tf.k), l.C), satAdd(satMul(v.Hi, tf.k), l.C)
				if a > b {
					a, b = b, a
				}
				out = append(out, Iv{a, b})
			}
			return normISet(out)
		}
		if tf.small {
			xs := make([]int64, 0, set.Size())
			set.Each(func(v int64) bool { xs = append(xs, tf.f(v)); return true })
			return setOf(xs)
		}
	}
	lo, hi := s.hull(l)
	return ivSet(lo, hi)
}

// derived makes a symbol for f(root value).
func (s *State) derived(name string, root Sym, f func(int64) int64) Lin {
	set := s.rootSet(root)
	var first int64
	n, same := 0, true
	ident := true
	set.Each(func(v int64) bool {
		x := f(v)
		if n == 0 {
			first = x
		} else if x != first {
			same = false
		}
		if x != v {
			ident = false
		}
		n++
		return same || ident
	})
	if n > 0 && same {
		return konst(first)
	}
	if n > 0 && ident {
		return symLin(root)
	}
	s.e.nfresh++
	y := s.e.newSym(name, ivSet(negInf, posInf))
	s.e.syms[y].def = &Def{root, f}
	return symLin(y)
}

// combine re-roots the small roots of a form to a single product root.
func (s *State) combine(rs []Sym) bool {
	n := int64(1)
	for _, r := range rs {
		z := s.rootSet(r).Size()
		if z > tabLimit {
			return false
		}
		n *= z
		if n > tabLimit {
			return false
		}
	}
	for len(rs) > 1 {
		a, b := rs[0], rs[1]
		var va, vb []int64
		s.rootSet(a).Each(func(v int64) bool { va = append(va, v); return true })
		s.rootSet(b).Each(func(v int64) bool { vb = append(vb, v); return true })
		if len(va) == 0 || len(vb) == 0 {
			return false
		}
		nb := int64(len(vb))
		p := s.e.newSym("("+s.e.syms[a].name+","+s.e.syms[b].name+")", ivSet(0, int64(len(va))*nb-1))
		s.defs[a] = &Def{p, func(v int64) int64 { return va[v/nb] }}
		s.defs[b] = &Def{p, func(v int64) int64 { return vb[v%nb] }}
		rs = append([]Sym{p}, rs[2:]...)
	}
	return true
}

// tabSmall is tab for forms that can be tabulated, combining roots if needed.
func (s *State) tabSmall(ls ...Lin) ([]tabForm, bool) {
	var rs []Sym
	seen := map[Sym]bool{}
	for _, l := range ls {
		for _, r := range s.roots(l) {
			if !seen[r] {
				seen[r] = true
				rs = append(rs, r)
			}
		}
	}
	if len(rs) == 0 {
		return nil, false
	}
	for _, r := range rs {
		if s.rootSet(r).Size() > tabLimit {
			return nil, false
		}
	}
	if len(rs) > 1 && !s.combine(rs) {
		return nil, false
	}
	var root Sym
	for _, l := range ls {
		if !l.IsConst() {
			r := s.roots(l)
			root = r[0]
		}
	}
	var out []tabForm
	for _, l := range ls {
		if l.IsConst() {
			c := l.C
			out = append(out, tabForm{root: root, f: func(int64) int64 { return c }, small: true})
			continue
		}
		tf, ok := s.tab(l)
		if !ok {
			return nil, false
		}
		out = append(out, tf)
	}
	return out, true
}

// ---- conditions ----

func holds(op CondOp, x int64) bool {
	switch op {
	case CEq:
		return x == 0
	case CNe:
		return x != 0
	}
	return x >= 0
}

// entails reports whether the state implies l >= 0.
func (s *State) entails(l Lin) bool {
	if l.IsConst() {
		return l.C >= 0
	}
	if lo, _ := s.hull(l); lo >= 0 {
		return true
	}
	if len(s.cons) == 0 {
		return false
	}
	neg := l.Neg().AddC(-1)
	for i := len(s.wits) - 1; i >= 0; i-- {
		if s.wits[i].value(neg) && s.satisfies(s.wits[i]) {
			return false
		}
	}
	bad, m := solve(s.relevant(neg), true)
	if m != nil {
		ws := s.wits
		if len(ws) >= 12 {
			ws = ws[1:]
		}
		w := wit(m)
		if len(ws) > 0 {
			// Keep what is known of other symbols.
			u := wit{}
			for x, v := range ws[len(ws)-1] {
				u[x] = v
			}
			for x, v := range m {
				u[x] = v
			}
			if s.satisfies(u) {
				w = u
			}
		}
		s.wits = append(ws[:len(ws):len(ws)], w)
	}
	return bad
}

// wit is an assignment that satisfies the constraints on its symbols.
type wit map[Sym]int64

// value reports whether l >= 0 there; false if that is not known.
func (w wit) value(l Lin) bool {
	x := l.C
	for _, t := range l.T {
		v, ok := w[t.S]
		if !ok {
			return false
		}
		x = satAdd(x, satMul(v, t.K))
	}
	return x >= 0
}

// satisfies: w is possible in s as far as linear reasoning goes.
func (s *State) satisfies(w wit) bool {
	for _, c := range s.cons {
		hit := false
		for _, t := range c.T {
			if _, ok := w[t.S]; ok {
				hit = true
				break
			}
		}
		if hit && !w.value(c) {
			return false
		}
	}
	for x, v := range w {
		lo, hi := s.symHull(x)
		if v < lo || v > hi {
			return false
		}
	}
	return true
}

// relevant collects the constraints connected to l, the symbols' bounds, and l.
func (s *State) relevant(l Lin) []Lin {
	in := map[Sym]bool{}
	for _, t := range l.T {
		in[t.S] = true
	}
	used := make([]bool, len(s.cons))
	out := []Lin{l}
	for again := true; again; {
		again = false
		for i, c := range s.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.T {
				if in[t.S] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				again = true
				out = append(out, c)
				for _, t := range c.T {
					in[t.S] = true
				}
			}
		}
	}
	for x := range in {
		lo, hi := s.symHull(x)
		if lo > negInf {
			out = append(out, symLin(x).AddC(-lo))
		}
		if hi < posInf {
			out = append(out, symLin(x).Neg().AddC(hi))
		}
	}
	sort.Slice(out[1:], func(i, j int) bool { return out[1+i].less(out[1+j]) })
	return out
}

// free: the symbol is not related to any other one.
func (s *State) free(x Sym) bool {
	if s.e.syms[x].def != nil || s.defs[x] != nil || s.rootSet(x).Size() == 1 {
		return false
	}
	return !s.inCons(x)
}

func (s *State) entailsEq(a, b Lin) bool {
	d := a.Sub(b)
	if d.IsConst() {
		return d.C == 0
	}
	for _, t := range d.T {
		if s.free(t.S) {
			return false
		}
	}
	if lo, hi := s.hull(d); lo == 0 && hi == 0 {
		return true
	} else if lo > 0 || hi < 0 {
		return false
	}
	for i := len(s.wits) - 1; i >= 0; i-- {
		w := s.wits[i]
		if (w.value(d.AddC(-1)) || w.value(d.Neg().AddC(-1))) && s.satisfies(w) {
			return false
		}
	}
	return s.entails(d) && s.entails(d.Neg())
}

func (s *State) entailsCond(c Cond) bool {
	if v, ok := c.ConstVal(); ok {
		return v
	}
	switch c.Op {
	case CGe:
		return s.entails(c.L)
	case CEq:
		return s.entailsEq(c.L, Lin{})
	}
	vs := s.values(c.L)
	return !vs.Has(0) || s.entails(c.L.AddC(-1)) || s.entails(c.L.Neg().AddC(-1))
}

// split partitions the state by a condition. Either result may be nil.
func (s *State) split(c Cond) (yes, no *State) {
	if v, ok := c.ConstVal(); ok {
		if v {
			return s, nil
		}
		return nil, s
	}
	tf, ok := s.tab(c.L)
	if !ok {
		rs := s.roots(c.L)
		n := int64(1)
		for _, r := range rs {
			z := s.rootSet(r).Size()
			if z > tabLimit {
				n = tabLimit + 1
				break
			}
			n *= z
			if n > tabLimit {
				break
			}
		}
		// Lengths and positions are left to linear reasoning.
		linear := false
		for _, t := range c.L.T {
			if s.inCons(t.S) {
				linear = true
			}
		}
		if n <= 1<<17 && (!linear || n <= 64) && s.combine(rs) {
			tf, ok = s.tab(c.L)
		}
	}
	if ok && (tf.affine || tf.small) {
		set := s.rootSet(tf.root)
		var y, n ISet
		if tf.affine {
			y = set.Intersect(affineSat(c, tf.k))
			n = set.Minus(y)
		} else {
			y, n = set.Filter(func(v int64) bool { return holds(c.Op, tf.f(v)) })
		}
		if n.Empty() {
			return s, nil
		}
		if y.Empty() {
			return nil, s
		}
		// A root that also occurs in linear constraints may be bound further.
		if s.inCons(tf.root) {
			if s.entailsCond(c) {
				return s, nil
			}
			if s.entailsCond(c.Not()) {
				return nil, s
			}
		}
		s.e.noteFork(s, c, s.e.syms[tf.root].dom.Size() >= 1<<40)
		t := s.fork()
		s.iv[tf.root] = y
		t.iv[tf.root] = n
		return s, t
	}
	if s.entailsCond(c) {
		return s, nil
	}
	if s.entailsCond(c.Not()) {
		return nil, s
	}
	s.e.noteFork(s, c, true)
	t := s.fork()
	s.assume(c)
	t.assume(c.Not())
	return s, t
}

func (s *State) inCons(x Sym) bool {
	for _, c := range s.cons {
		if c.Coef(x) != 0 {
			return true
		}
	}
	return false
}

// affineSat is the set of roots r with (k*r + c) op 0.
func affineSat(c Cond, k int64) ISet {
	cc := c.L.C
	switch c.Op {
	case CGe: // k*r + cc >= 0
		if k > 0 {
			return ivSet(-floorDiv(cc, k), posInf) // r >= ceil(-cc/k)
		}
		return ivSet(negInf, floorDiv(cc, -k))
	case CEq, CNe:
		var eq ISet
		if cc%k == 0 {
			eq = ivSet(-cc/k, -cc/k)
		}
		if c.Op == CEq {
			return eq
		}
		return eq.Complement()
	}
	return nil
}

// assume adds a condition without checking that it can hold.
func (s *State) assume(c Cond) {
	if c.L.IsConst() {
		return
	}
	switch c.Op {
	case CGe:
		s.addCons(c.L)
	case CEq:
		s.addCons(c.L)
		s.addCons(c.L.Neg())
	case CNe:
		if s.entails(c.L) {
			s.addCons(c.L.AddC(-1))
		} else if s.entails(c.L.Neg()) {
			s.addCons(c.L.Neg().AddC(-1))
		}
	}
}

func (s *State) addCons(l Lin) {
	if l.IsConst() {
		return
	}
	if len(l.T) == 1 {
		// Keep single-symbol bounds as intervals.
		if r, f := s.rootOf(l.T[0].S); f == nil {
			y := s.rootSet(r).Intersect(affineSat(Cond{CGe, l}, l.T[0].K))
			if !y.Empty() {
				s.iv[r] = y
			}
		}
	}
	for _, c := range s.cons {
		if c.Eq(l) {
			return
		}
	}
	s.cons = append(s.cons[:len(s.cons):len(s.cons)], l)
}

// feasible reports whether the constraints are not shown contradictory.
func (s *State) feasible() bool {
	for _, v := range s.iv {
		if v.Empty() {
			return false
		}
	}
	for _, c := range s.cons {
		if infeasible(s.relevant(c)) {
			return false
		}
	}
	return true
}

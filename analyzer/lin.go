package main

import (
	"sort"
	"strconv"
	"sync"
)

// Sym is an abstract integer: an input, a length, an element read from an
// input sequence, or a value derived from one of those by a finite function.
type Sym int

// Lin is the linear form C + sum(T[i].K * T[i].S). Lins are immutable.
type Lin struct {
	C int64
	T []Term // sorted by S, K != 0
}

type Term struct {
	S Sym
	K int64
}

func konst(c int64) Lin { return Lin{C: c} }
func symLin(s Sym) Lin  { return Lin{T: []Term{{s, 1}}} }

func (a Lin) IsConst() bool { return len(a.T) == 0 }

func (a Lin) Add(b Lin) Lin { return a.addMul(b, 1) }
func (a Lin) Sub(b Lin) Lin { return a.addMul(b, -1) }
func (a Lin) AddC(c int64) Lin {
	return Lin{C: a.C + c, T: a.T}
}

func (a Lin) addMul(b Lin, k int64) Lin {
	if k == 0 {
		return a
	}
	if len(b.T) == 0 {
		return Lin{C: a.C + k*b.C, T: a.T}
	}
	out := Lin{C: a.C + k*b.C, T: make([]Term, 0, len(a.T)+len(b.T))}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j == len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			out.T = append(out.T, a.T[i])
			i++
		case i == len(a.T) || b.T[j].S < a.T[i].S:
			out.T = append(out.T, Term{b.T[j].S, k * b.T[j].K})
			j++
		default:
			if c := a.T[i].K + k*b.T[j].K; c != 0 {
				out.T = append(out.T, Term{a.T[i].S, c})
			}
			i++
			j++
		}
	}
	return out
}

func (a Lin) Mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	out := Lin{C: a.C * k, T: make([]Term, len(a.T))}
	for i, t := range a.T {
		out.T[i] = Term{t.S, t.K * k}
	}
	return out
}

func (a Lin) Neg() Lin { return a.Mul(-1) }

func (a Lin) Eq(b Lin) bool {
	if a.C != b.C || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (a Lin) Coef(s Sym) int64 {
	for _, t := range a.T {
		if t.S == s {
			return t.K
		}
	}
	return 0
}

// Subst replaces symbols by linear forms.
func (a Lin) Subst(m map[Sym]Lin) Lin {
	hit := false
	for _, t := range a.T {
		if _, ok := m[t.S]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	out := konst(a.C)
	for _, t := range a.T {
		if l, ok := m[t.S]; ok {
			out = out.addMul(l, t.K)
		} else {
			out = out.addMul(symLin(t.S), t.K)
		}
	}
	return out
}

func (a Lin) Key() string {
	var buf [96]byte
	b := strconv.AppendInt(buf[:0], a.C, 10)
	for _, t := range a.T {
		b = append(b, '+')
		b = strconv.AppendInt(b, t.K, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.S), 10)
	}
	return string(b)
}

// less orders linear forms.
func (a Lin) less(b Lin) bool {
	for i, t := range a.T {
		if i >= len(b.T) {
			return false
		}
		if u := b.T[i]; t != u {
			return t.S < u.S || t.S == u.S && t.K < u.K
		}
	}
	if len(a.T) < len(b.T) {
		return true
	}
	return a.C < b.C
}

func sameTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sumLin(ls ...Lin) Lin {
	var out Lin
	for _, l := range ls {
		out = out.Add(l)
	}
	return out
}

// ---- linear constraints (each Lin in a list means "Lin >= 0") ----

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func tighten(l Lin) Lin {
	var g int64
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	out := Lin{T: make([]Term, len(l.T))}
	for i, t := range l.T {
		out.T[i] = Term{t.S, t.K / g}
	}
	out.C = floorDiv(l.C, g)
	return out
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// infeasible reports whether the constraints (all >= 0) have no integer
// solution, by Fourier-Motzkin elimination with integer tightening. false
// means "not shown".
func infeasible(cons []Lin) bool {
	bad, _ := solve(cons, false)
	return bad
}

// solve is infeasible, and looks for a solution if model is set.
func solve(cons []Lin, model bool) (bool, map[Sym]int64) {
	f := fmPool.Get().(*fm)
	defer fmPool.Put(f)
	return f.solve(cons, model)
}

var fmPool = sync.Pool{New: func() interface{} { return &fm{} }}

// fm is the working memory of solve.
type fm struct {
	syms     []Sym
	arena    []fmTerm
	pos, neg []int32
	table    []int32
}

type fmTerm struct {
	x int32
	k int64
}

type fmRow struct {
	c int64
	t []fmTerm
	h uint64
}

type fmStep struct {
	x      int32
	ps, ns []fmRow
}

func (f *fm) alloc(n int) []fmTerm {
	if len(f.arena)+n > cap(f.arena) {
		m := 2 * cap(f.arena)
		if m < 4096 {
			m = 4096
		}
		if m < n {
			m = n
		}
		f.arena = make([]fmTerm, 0, m)
	}
	k := len(f.arena)
	f.arena = f.arena[:k+n]
	return f.arena[k : k : k+n]
}

func (r *fmRow) coef(x int32) int64 {
	for _, t := range r.t {
		if t.x == x {
			return t.k
		}
	}
	return 0
}

// tidy divides by the common factor and hashes.
func (r *fmRow) tidy() {
	var g int64
	for _, t := range r.t {
		if g = gcd(g, t.k); g == 1 {
			break
		}
	}
	if g > 1 {
		for i := range r.t {
			r.t[i].k /= g
		}
		r.c = floorDiv(r.c, g)
	}
	h := uint64(14695981039346656037)
	for _, t := range r.t {
		h = (h ^ uint64(t.x)) * 1099511628211
		h = (h ^ uint64(t.k)) * 1099511628211
	}
	r.h = h ^ h>>29
}

// combine is kp*p + kn*n.
func (f *fm) combine(p, n *fmRow, kp, kn int64) fmRow {
	r := fmRow{c: kp*p.c + kn*n.c, t: f.alloc(len(p.t) + len(n.t))}
	i, j := 0, 0
	for i < len(p.t) || j < len(n.t) {
		switch {
		case j == len(n.t) || i < len(p.t) && p.t[i].x < n.t[j].x:
			r.t = append(r.t, fmTerm{p.t[i].x, kp * p.t[i].k})
			i++
		case i == len(p.t) || n.t[j].x < p.t[i].x:
			r.t = append(r.t, fmTerm{n.t[j].x, kn * n.t[j].k})
			j++
		default:
			if c := kp*p.t[i].k + kn*n.t[j].k; c != 0 {
				r.t = append(r.t, fmTerm{p.t[i].x, c})
			}
			i++
			j++
		}
	}
	r.tidy()
	return r
}

func sameRow(a, b []fmTerm) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// dedup drops rows that another one with the same symbols implies.
func (f *fm) dedup(rows []fmRow) []fmRow {
	size := 16
	for size < 2*len(rows) {
		size *= 2
	}
	if len(f.table) < size {
		f.table = make([]int32, size)
	}
	tab := f.table[:size]
	for i := range tab {
		tab[i] = 0
	}
	out := rows[:0]
next:
	for _, r := range rows {
		i := int(r.h) & (size - 1)
		for tab[i] != 0 {
			if o := &out[tab[i]-1]; o.h == r.h && sameRow(o.t, r.t) {
				if r.c < o.c {
					o.c = r.c
				}
				continue next
			}
			i = (i + 1) & (size - 1)
		}
		out = append(out, r)
		tab[i] = int32(len(out))
	}
	return out
}

func (f *fm) solve(cons []Lin, model bool) (bool, map[Sym]int64) {
	f.syms, f.arena = f.syms[:0], f.arena[:0]
	for _, c := range cons {
		for _, t := range c.T {
			f.syms = append(f.syms, t.S)
		}
	}
	sort.Slice(f.syms, func(i, j int) bool { return f.syms[i] < f.syms[j] })
	k := 0
	for i, x := range f.syms {
		if i == 0 || x != f.syms[k-1] {
			f.syms[k] = x
			k++
		}
	}
	f.syms = f.syms[:k]
	if len(f.pos) < k {
		f.pos, f.neg = make([]int32, 2*k), make([]int32, 2*k)
	}
	idx := func(x Sym) int32 {
		lo, hi := 0, k
		for lo < hi {
			if m := (lo + hi) / 2; f.syms[m] < x {
				lo = m + 1
			} else {
				hi = m
			}
		}
		return int32(lo)
	}
	work := make([]fmRow, 0, 2*len(cons))
	for _, c := range cons {
		if c.IsConst() {
			if c.C < 0 {
				return true, nil
			}
			continue
		}
		r := fmRow{c: c.C, t: f.alloc(len(c.T))}
		for _, t := range c.T {
			r.t = append(r.t, fmTerm{idx(t.S), t.K})
		}
		r.tidy()
		work = append(work, r)
	}
	work = f.dedup(work)
	var steps []fmStep
	var ps, ns []fmRow
	for len(work) > 0 {
		// Pick the symbol whose elimination makes the fewest constraints.
		pos, neg := f.pos[:k], f.neg[:k]
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for i := range work {
			for _, t := range work[i].t {
				if t.k > 0 {
					pos[t.x]++
				} else {
					neg[t.x]++
				}
			}
		}
		best, bestCost := int32(-1), int32(0)
		for x := range pos {
			if p, n := pos[x], neg[x]; p+n > 0 {
				if cost := p*n - p - n; best < 0 || cost < bestCost {
					best, bestCost = int32(x), cost
				}
			}
		}
		if model {
			ps, ns = nil, nil
		} else {
			ps, ns = ps[:0], ns[:0]
		}
		next := work[:0]
		for _, r := range work {
			switch k := r.coef(best); {
			case k > 0:
				ps = append(ps, r)
			case k < 0:
				ns = append(ns, r)
			default:
				next = append(next, r)
			}
		}
		if len(ps)*len(ns) > 4000 || len(next) > 4000 {
			return false, nil
		}
		if model {
			steps = append(steps, fmStep{best, ps, ns})
		}
		for i := range ps {
			for j := range ns {
				kp, kn := ps[i].coef(best), -ns[j].coef(best)
				g := gcd(kp, kn)
				r := f.combine(&ps[i], &ns[j], kn/g, kp/g)
				if len(r.t) == 0 {
					if r.c < 0 {
						return true, nil
					}
					continue
				}
				next = append(next, r)
			}
		}
		work = f.dedup(next)
	}
	if !model {
		return false, nil
	}
	// Assign the symbols in reverse order.
	m := make([]int64, k)
	for i := len(steps) - 1; i >= 0; i-- {
		st := steps[i]
		eval := func(r *fmRow) int64 {
			x := r.c
			for _, t := range r.t {
				if t.x != st.x {
					x = satAdd(x, satMul(m[t.x], t.k))
				}
			}
			return x
		}
		lo, hi := int64(negInf), int64(posInf)
		for i := range st.ps {
			if v := -floorDiv(eval(&st.ps[i]), st.ps[i].coef(st.x)); v > lo {
				lo = v
			}
		}
		for i := range st.ns {
			if v := floorDiv(eval(&st.ns[i]), -st.ns[i].coef(st.x)); v < hi {
				hi = v
			}
		}
		if lo > hi {
			return false, nil
		}
		switch {
		case lo > negInf && hi < posInf && hi-lo > 2:
			m[st.x] = lo + 1 + (hi-lo)%3%2
		case lo > negInf:
			m[st.x] = lo
		case hi < posInf:
			m[st.x] = hi
		}
	}
	out := make(map[Sym]int64, k)
	for i, x := range f.syms {
		out[x] = m[i]
	}
	for _, c := range cons {
		x := c.C
		for _, t := range c.T {
			x = satAdd(x, satMul(out[t.S], t.K))
		}
		if x < 0 {
			return false, nil
		}
	}
	return false, out
}

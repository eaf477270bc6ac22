package main

import (
	"fmt"
	"math/big"
)

// solved gives the slots of an arrived state with the equations between its
// symbols substituted, as far as they are plain to see.
func solved(in *inst, fixed Sym) ([]Lin, []Lin) {
	s := in.s
	sub := map[Sym]Lin{}
	apply := func(l Lin) Lin {
		for i := 0; i < 8; i++ {
			hit := false
			for _, t := range l.T {
				if _, ok := sub[t.S]; ok {
					hit = true
				}
			}
			if !hit {
				break
			}
			l = l.Subst(sub)
		}
		return l
	}
	for r, v := range s.iv {
		if v.Size() == 1 {
			lo, _ := v.Hull()
			sub[r] = konst(lo)
		}
	}
	var eqs []Lin // between symbols that are kept
	neg := map[string]bool{}
	for _, c := range s.cons {
		neg[c.Neg().Key()] = true
	}
	for _, c := range s.cons {
		if !neg[c.Key()] {
			continue
		}
		l := apply(c)
		best := -1
		for i, t := range l.T {
			if (t.K == 1 || t.K == -1) && (best < 0 || t.S > l.T[best].S) {
				best = i
			}
		}
		if best < 0 || l.T[best].S < fixed {
			if len(l.T) > 0 && len(eqs) < 6 {
				dup := false
				for _, x := range eqs {
					if x.Eq(l) || x.Eq(l.Neg()) {
						dup = true
					}
				}
				if !dup {
					eqs = append(eqs, l)
				}
			}
			continue
		}
		t := l.T[best]
		// t.K*x + rest == 0
		rest := l.addMul(symLin(t.S), -t.K)
		sub[t.S] = rest.Mul(-t.K)
	}
	out := make([]Lin, len(in.slots))
	for i, sl := range in.slots {
		out[i] = apply(sl.l)
	}
	for i, x := range eqs {
		eqs[i] = apply(x)
	}
	return out, eqs
}

// combination finds integers c and a fixed form d with slot i == sum of
// c[j]*(slot reps[j]) + d in all of the lines. eqs are forms that are zero for a line.
func (g *generaliser) combination(lines, eqs [][]Lin, reps []int, i int) ([]int64, Lin, bool) {
	n := len(reps)
	if n == 0 || n > 24 {
		return nil, Lin{}, false
	}
	at := make([]int, len(lines)) // column of a line's first equality
	cols := n
	for k := range lines {
		at[k] = cols
		cols += len(eqs[k])
	}
	var rows [][]int64 // coefficients and the right side
	seen := map[string]bool{}
	addRow := func(f func(l Lin) int64, base func(l Lin) int64, k int) {
		ln := lines[k]
		row := make([]int64, cols+1)
		zero := true
		key := make([]byte, 0, 4*n)
		put := func(j int, l, l0 Lin) {
			v := f(l)
			if base != nil {
				v -= base(l0)
			}
			row[j] = v
			if v != 0 {
				zero = false
			}
			key = append(key, []byte(fmt.Sprintf("%d:%d,", j, v))...)
		}
		for j, r := range reps {
			put(j, ln[r], lines[0][r])
		}
		for e, x := range eqs[k] {
			put(at[k]+e, x, Lin{})
		}
		if base != nil {
			for e, x := range eqs[0] {
				put(at[0]+e, x.Neg(), Lin{})
			}
		}
		put(cols, ln[i], lines[0][i])
		if !zero && !seen[string(key)] {
			seen[string(key)] = true
			rows = append(rows, row)
		}
	}
	cst := func(l Lin) int64 { return l.C }
	for k, ln := range lines {
		syms := map[Sym]bool{}
		collect := func(l Lin) {
			for _, t := range l.T {
				syms[t.S] = true
			}
		}
		for _, x := range [][]Lin{ln, lines[0]} {
			for _, r := range reps {
				collect(x[r])
			}
			collect(x[i])
		}
		for _, x := range append(append([]Lin{}, eqs[k]...), eqs[0]...) {
			collect(x)
		}
		for x := range syms {
			x := x
			co := func(l Lin) int64 { return l.Coef(x) }
			if x >= g.maxSym0 {
				addRow(co, nil, k)
			} else if k > 0 {
				addRow(co, co, k)
			}
		}
		if k > 0 {
			addRow(cst, cst, k)
		}
	}
	sol, ok := solveRows(rows, cols)
	if !ok {
		return nil, Lin{}, false
	}
	d := lines[0][i]
	for e, x := range eqs[0] {
		d = d.addMul(x, -sol[at[0]+e])
	}
	sol = sol[:n]
	for j, c := range sol {
		if c != 0 {
			d = d.addMul(lines[0][reps[j]], -c)
		}
	}
	if !g.s0only(d) {
		return nil, Lin{}, false
	}
	return sol, d, true
}

// solveRows solves a linear system over the integers, if it has an integer solution
// with the free variables 0.
func solveRows(rows [][]int64, n int) ([]int64, bool) {
	m := make([][]*big.Rat, len(rows))
	for r, row := range rows {
		m[r] = make([]*big.Rat, n+1)
		for j, v := range row {
			m[r][j] = big.NewRat(v, 1)
		}
	}
	piv := make([]int, 0, n)
	rk := 0
	for j := 0; j < n && rk < len(m); j++ {
		p := -1
		for r := rk; r < len(m); r++ {
			if m[r][j].Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			continue
		}
		m[rk], m[p] = m[p], m[rk]
		inv := new(big.Rat).Inv(m[rk][j])
		for k := j; k <= n; k++ {
			m[rk][k].Mul(m[rk][k], inv)
		}
		for r := range m {
			if r == rk || m[r][j].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Set(m[r][j])
			for k := j; k <= n; k++ {
				m[r][k].Sub(m[r][k], new(big.Rat).Mul(f, m[rk][k]))
			}
		}
		piv = append(piv, j)
		rk++
	}
	for r := rk; r < len(m); r++ {
		if m[r][n].Sign() != 0 {
			return nil, false
		}
	}
	sol := make([]int64, n)
	for r, j := range piv {
		if !m[r][n].IsInt() || !m[r][n].Num().IsInt64() {
			return nil, false
		}
		sol[j] = m[r][n].Num().Int64()
	}
	return sol, true
}

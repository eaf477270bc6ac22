package main

import (
	"fmt"
	"math"
	mathbits "math/bits"
	"sort"
	"strings"
)

// ISet is a set of integers, kept as sorted, disjoint, non-adjacent closed
// intervals. ISets are immutable.
type ISet []Iv

// Iv is the closed interval [Lo, Hi].
type Iv struct{ Lo, Hi int64 }

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

func ivSet(lo, hi int64) ISet {
	if lo > hi {
		return nil
	}
	return ISet{{lo, hi}}
}

func (s ISet) Empty() bool { return len(s) == 0 }

func (s ISet) Hull() (int64, int64) {
	if len(s) == 0 {
		return 1, 0
	}
	return s[0].Lo, s[len(s)-1].Hi
}

// Size is the number of elements, saturating at max.
func (s ISet) Size() int64 {
	var n int64
	for _, v := range s {
		d := v.Hi - v.Lo + 1
		if d < 0 || d > 1<<40 {
			return 1 << 40
		}
		n += d
		if n > 1<<40 {
			return 1 << 40
		}
	}
	return n
}

func (s ISet) Has(x int64) bool {
	i := sort.Search(len(s), func(i int) bool { return s[i].Hi >= x })
	return i < len(s) && s[i].Lo <= x
}

func (s ISet) Intersect(t ISet) ISet {
	var out ISet
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		lo, hi := s[i].Lo, s[i].Hi
		if t[j].Lo > lo {
			lo = t[j].Lo
		}
		if t[j].Hi < hi {
			hi = t[j].Hi
		}
		if lo <= hi {
			out = append(out, Iv{lo, hi})
		}
		if s[i].Hi < t[j].Hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s ISet) Complement() ISet {
	var out ISet
	next := int64(negInf)
	for _, v := range s {
		if v.Lo > next {
			out = append(out, Iv{next, v.Lo - 1})
		}
		next = v.Hi + 1
	}
	if next <= posInf {
		out = append(out, Iv{next, posInf})
	}
	return out
}

func (s ISet) Minus(t ISet) ISet { return s.Intersect(t.Complement()) }

func (s ISet) Union(t ISet) ISet {
	all := append(append(ISet{}, s...), t...)
	return normISet(all)
}

func normISet(all ISet) ISet {
	if len(all) == 0 {
		return nil
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Lo < all[j].Lo })
	out := ISet{all[0]}
	for _, v := range all[1:] {
		l := &out[len(out)-1]
		if v.Lo <= l.Hi+1 {
			if v.Hi > l.Hi {
				l.Hi = v.Hi
			}
		} else {
			out = append(out, v)
		}
	}
	return out
}

func (s ISet) Equal(t ISet) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

func (s ISet) Subset(t ISet) bool { return s.Minus(t).Empty() }

// Each calls f for every element until f returns false.
func (s ISet) Each(f func(int64) bool) {
	for _, v := range s {
		for x := v.Lo; x <= v.Hi; x++ {
			if !f(x) {
				return
			}
		}
	}
}

// Filter returns the elements for which keep holds, and the others.
func (s ISet) Filter(keep func(int64) bool) (yes, no ISet) {
	for _, v := range s {
		for x := v.Lo; x <= v.Hi; x++ {
			p := &no
			if keep(x) {
				p = &yes
			}
			if n := len(*p); n > 0 && (*p)[n-1].Hi == x-1 {
				(*p)[n-1].Hi = x
			} else {
				*p = append(*p, Iv{x, x})
			}
		}
	}
	return
}

func setOf(xs []int64) ISet {
	if len(xs) > 16 {
		lo, hi := xs[0], xs[0]
		for _, x := range xs {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		if hi-lo < 1<<22 && hi >= lo {
			bits := make([]uint64, (hi-lo)/64+1)
			for _, x := range xs {
				bits[(x-lo)/64] |= 1 << uint((x-lo)%64)
			}
			var s ISet
			for i, b := range bits {
				for b != 0 {
					k := mathbits.TrailingZeros64(b)
					x := lo + int64(i)*64 + int64(k)
					if n := len(s); n > 0 && s[n-1].Hi == x-1 {
						s[n-1].Hi = x
					} else {
						s = append(s, Iv{x, x})
					}
					b &= b - 1
				}
			}
			return s
		}
	}
	var s ISet
	for _, x := range xs {
		s = append(s, Iv{x, x})
	}
	return normISet(s)
}

func (s ISet) String() string {
	if len(s) == 0 {
		return "{}"
	}
	var b strings.Builder
	for i, v := range s {
		if i == 6 {
			fmt.Fprintf(&b, "..(%d more intervals)", len(s)-i)
			break
		}
		if i > 0 {
			b.WriteString(",")
		}
		if v.Lo == v.Hi {
			fmt.Fprintf(&b, "%#x", v.Lo)
		} else {
			lo, hi := fmt.Sprintf("%#x", v.Lo), fmt.Sprintf("%#x", v.Hi)
			if v.Lo <= negInf {
				lo = "-inf"
			}
			if v.Hi >= posInf {
				hi = "+inf"
			}
			fmt.Fprintf(&b, "%s..%s", lo, hi)
		}
	}
	return b.String()
}

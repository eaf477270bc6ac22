package main

import (
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Checks of the hanja package.

var scalarDom = normISet(ISet{{0, 0xD7FF}, {0xE000, 0x10FFFF}})

// dictionary interprets Convert on the strings of one rune, for every rune,
// and returns what it makes of each.
func (c *Run) dictionary(fn *ssa.Function) map[int64]int64 {
	e, s := c.eng()
	x := symRune(e, "c", scalarDom)
	dict := map[int64]int64{}
	for _, rp := range e.runePiece(s, x) {
		e.log = newLog()
		for _, o := range c.run(e, rp.S, fn, []Value{VStr{rp.R}}, false) {
			y, ok := oneRuneOf(o.S, o.V)
			if !c.ob(ok, "result", c.pos(fn), "%s of a string of one rune is not one rune determined by it: %s when %s", fn.Name(), o.S.valStr(o.V), o.S.describe()) {
				return nil
			}
			bad := o.S.pointwise([]Lin{x, y}, func(v []int64) bool { dict[v[0]] = v[1]; return true })
			c.ob(bad == "", "result", c.pos(fn), "%s of a string of one rune: %s", fn.Name(), bad)
		}
	}
	c.ob(int64(len(dict)) == scalarDom.Size(), "vacuous", c.pos(fn), "%d of %d runes have an outcome", len(dict), scalarDom.Size())
	return dict
}

// oneRuneOf takes the rune a string consists of.
func oneRuneOf(s *State, v Value) (Lin, bool) {
	str, ok := v.(VStr)
	if !ok {
		return Lin{}, false
	}
	r := trim(s, str.R)
	if len(r) == 1 && r[0].K == pRune {
		return lin(r[0].V[0])
	}
	if b, ok := str.R.constString(); ok {
		x, n := utf8.DecodeRuneInString(b)
		return konst(int64(x)), n > 0 && n == len(b)
	}
	if len(r) == 1 && r[0].K == pElems && len(r[0].V) == 1 {
		l, ok := lin(r[0].V[0])
		if !ok {
			return l, false
		}
		lo, hi := s.hull(l)
		return l, lo >= 0 && hi < 0x80
	}
	return Lin{}, false
}

// accepted tells whether y is what c may be converted to.
func accepted(c, y int64) bool {
	o := oracle()
	if _, ok := o.hanja[c]; !ok {
		return y == c
	}
	for _, a := range o.hanjaAlt[c] {
		if a == y {
			return true
		}
	}
	return false
}

// readings compares a dictionary with the reference.
func (c *Run) readings(fn *ssa.Function, dict map[int64]int64) {
	n := 0
	scalarDom.Each(func(r int64) bool {
		y := dict[r]
		if !accepted(r, y) {
			n++
			if n <= 20 {
				want := "unchanged"
				if _, ok := oracle().hanja[r]; ok {
					want = string(rune(oracle().hanja[r]))
				}
				c.ob(false, "reading", c.pos(fn), "%s replaces %q (%#x) by %q (%#x), want %s", fn.Name(), rune(r), r, rune(y), y, want)
			}
		} else {
			c.obls++
		}
		return true
	})
	c.notes["dictionary entries compared"] = len(oracle().hanja)
}

func checkConvert(c *Run) {
	fn := c.function("hanja", "Convert")
	if fn == nil {
		return
	}
	dict := c.dictionary(fn)
	if dict == nil {
		return
	}
	c.readings(fn, dict)
	for r, y := range dict {
		c.obls++
		if dict[y] != y {
			c.ob(false, "idempotence", c.pos(fn), "%s converts %q to %q and that to %q", fn.Name(), rune(r), rune(y), rune(dict[y]))
		}
	}
	c.wholeString(fn, readingHom(dict), true)
}

func readingHom(dict map[int64]int64) *Hom {
	dense := make([]int64, 0x110000)
	for r := range dense {
		dense[r] = int64(r)
		if y, ok := dict[int64(r)]; ok {
			dense[r] = y
		}
	}
	return &Hom{Name: "reading", InRunes: true, OutRunes: true, conv: func(r int64) int64 {
		if r < 0 || r >= int64(len(dense)) {
			return r
		}
		return dense[r]
	}}
}

// wholeString checks that fn, for every string, returns the translation h of
// the string's runes.
func (c *Run) wholeString(fn *ssa.Function, h *Hom, panics bool) {
	e, s := c.eng()
	str, q := symString(e, "s")
	b := *h
	b.InRunes, b.OutRunes = false, false
	e.targets = []target{{h, q}, {&b, q}}
	n := 0
	for _, o := range c.run(e, s, fn, []Value{str}, panics) {
		n++
		res, ok := o.V.(VStr)
		if !c.ob(ok, "result", c.pos(fn), "%s: result %s not determined", fn.Name(), o.S.valStr(o.V)) {
			continue
		}
		good := false
		for _, t := range e.allTargets() {
			from, to := konst(0), t.Q.Len
			if !t.H.InRunes {
				to = q.Len
			}
			if hi, ok := e.covers(o.S, t.H, t.Q, from, res.R); ok && o.S.entailsEq(hi, to) {
				good = true
				break
			}
		}
		if !good {
			// The empty string has no runes.
			good = o.S.entailsEq(q.Len, Lin{}) && o.S.entailsEq(res.R.Len(), Lin{})
		}
		c.ob(good, "result", c.pos(fn), "%s: result %s is not the translation of every rune of the argument in order%s; when %s", fn.Name(), o.S.ropeStr(res.R), e.mismatches(), o.S.describe())
		if good {
			c.sample("%s(s) = %s when %s", fn.Name(), o.S.ropeStr(res.R), o.S.describe())
		}
	}
	c.ob(n > 0, "vacuous", c.pos(fn), "%s has no outcome", fn.Name())
}

func (e *Engine) mismatches() string {
	var out []string
	for m := range e.mism {
		out = append(out, m)
	}
	sortStrings(out)
	if len(out) == 0 {
		return ""
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return " (" + strings.Join(out, "; ") + ")"
}

func checkIsHanja(c *Run) {
	is := c.function("hanja", "IsHanja")
	conv := c.function("hanja", "Convert")
	if is == nil || conv == nil {
		return
	}
	dict := c.dictionary(conv)
	if dict == nil {
		return
	}
	all := typeDom(is.Params[0].Type().Underlying().(*types.Basic))
	e, s := c.eng()
	x := symRune(e, "c", all)
	var yes ISet
	for _, o := range c.run(e, s, is, []Value{VInt{x}}, true) {
		for _, r := range c.ints(is, o.S, o.V, 1) {
			if !c.ob(r.L[0].IsConst(), "result", c.pos(is), "IsHanja not determined") {
				continue
			}
			if r.L[0].C != 0 {
				yes = yes.Union(r.S.values(x))
			}
		}
	}
	var want ISet
	for r, y := range dict {
		if r != y {
			want = append(want, Iv{r, r})
		}
	}
	want = normISet(want)
	a, b := yes.Minus(want), want.Minus(yes)
	c.ob(a.Empty(), "too many", c.pos(is), "IsHanja is true for %s, which Convert leaves unchanged", a)
	c.ob(b.Empty(), "too few", c.pos(is), "IsHanja is false for %s, which Convert replaces", b)
	var not ISet
	for r := range oracle().syl {
		not = append(not, Iv{r, r})
	}
	not = append(not, Iv{0, 0x7f}, Iv{0x1100, 0x11ff}, Iv{0x3130, 0x318f}, Iv{0xa960, 0xa97f}, Iv{0xd7b0, 0xd7ff})
	n := normISet(not).Intersect(yes)
	c.ob(n.Empty(), "not hanja", c.pos(is), "IsHanja is true for %s", n)
	c.ob(yes.Size() > 0, "vacuous", c.pos(is), "IsHanja is never true")
	c.cells += int(yes.Size())
	c.sample("IsHanja is true for %d runes, the ones Convert replaces", yes.Size())
}

func checkReadings(c *Run) {
	fn := c.function("hanja", "Convert")
	if fn == nil {
		return
	}
	dict := c.dictionary(fn)
	if dict == nil {
		return
	}
	c.readings(fn, dict)
	n := 0
	for r, y := range dict {
		if r == y {
			continue
		}
		n++
		_, isSyl := oracle().syl[y]
		if !isSyl || !isIdeograph(r) {
			c.ob(false, "entry", c.pos(fn), "%q (%#x) is replaced by %q (%#x)", rune(r), r, rune(y), y)
		}
		c.obls++
	}
	c.cells += n
}

// isIdeograph: the blocks of CJK ideographs.
func isIdeograph(r int64) bool {
	for _, b := range [][2]int64{{0x2E80, 0x2FDF}, {0x3005, 0x3007}, {0x3400, 0x4DBF}, {0x4E00, 0x9FFF}, {0xF900, 0xFAFF}, {0x20000, 0x323AF}} {
		if r >= b[0] && r <= b[1] {
			return true
		}
	}
	return false
}

func init() {
	register("C24", "proof", "Convert is interpreted for a string of arbitrary length with an inductive invariant found for its loop; the result must be the rune-by-rune translation, and each rune's translation (all runes interpreted) that of the reference dictionary; the dictionary must be idempotent", checkConvert)
	register("C25", "proof", "IsHanja and one-rune Convert are interpreted for every rune value and compared", checkIsHanja)
	register("C26", "proof", "Convert is interpreted for every rune and the reading compared with the reference dictionary and the CLDR collation", checkReadings)
}

func hasSuffix(s, suf string) bool { return strings.HasSuffix(s, suf) }

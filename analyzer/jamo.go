package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// symRune is a rune parameter of any value, or of a set.
func symRune(e *Engine, name string, dom ISet) Lin {
	return symLin(e.newSym(name, dom))
}

// symString is a string of arbitrary bytes.
func symString(e *Engine, name string) (VStr, *Seq) {
	q := e.newSeq(name, false)
	q.Len = symLin(e.newSym("len("+name+")", ivSet(0, maxLen)))
	q.Final = func(*State) bool { return true }
	return VStr{Rope{sub(q, konst(0), q.Len)}}, q
}

// run calls fn and reports the interpreter's findings.
func (c *Run) run(e *Engine, s *State, fn *ssa.Function, args []Value, panics bool) []SV {
	outs := e.call(s, fn, args, nil, nil)
	c.collect(e, e.log, fn.Name(), panics)
	e.log = newLog()
	c.cells += len(outs)
	return outs
}

func (c *Run) ints(fn *ssa.Function, s *State, v Value, n int) []struct {
	S *State
	L []Lin
	E string
} {
	rs := results(s, v)
	out := rs[:0]
	for _, r := range rs {
		if !c.ob(r.E == "" && len(r.L) == n, "result", c.pos(fn), "%s: results not determined: %s when %s", fn.Name(), r.E, r.S.describe()) {
			continue
		}
		out = append(out, r)
	}
	return out
}

func checkInverse(c *Run) {
	o := oracle()
	join := c.function("", "Join")
	lead, medial, tail := c.function("", "Lead"), c.function("", "Medial"), c.function("", "Tail")
	if join == nil || lead == nil || medial == nil || tail == nil {
		return
	}
	for _, name := range []string{"Split", "SplitCompat"} {
		fn := c.function("", name)
		if fn == nil {
			continue
		}
		e, s := c.eng()
		x := symRune(e, "c", ivSet(0xAC00, 0xD7A3))
		n := 0
		for _, a := range c.run(e, s, fn, []Value{VInt{x}}, true) {
			for _, r := range c.ints(fn, a.S, a.V, 3) {
				for _, b := range c.run(e, r.S, join, []Value{VInt{r.L[0]}, VInt{r.L[1]}, VInt{r.L[2]}}, true) {
					for _, j := range c.ints(join, b.S, b.V, 1) {
						n++
						bad := j.S.pointwise([]Lin{x, j.L[0]}, func(v []int64) bool { return v[0] == v[1] })
						c.ob(bad == "", "inverse", c.pos(join), "Join(%s(c)) is not c for c in %s, e.g. (c, result) %s", name, j.S.values(x), bad)
						c.sample("Join(%s(c)) == c for c in %s", name, j.S.values(x))
					}
				}
			}
		}
		c.ob(n > 0, "vacuous", c.pos(fn), "no outcome")
	}
	split := c.function("", "Split")
	if split == nil {
		return
	}
	e, s := c.eng()
	dom := typeDom(types.Typ[types.Int32])
	l, m, t := symRune(e, "l", dom), symRune(e, "m", dom), symRune(e, "t", dom)
	n := 0
	for _, a := range c.run(e, s, join, []Value{VInt{l}, VInt{m}, VInt{t}}, true) {
		for _, r := range c.ints(join, a.S, a.V, 1) {
			_, ok := r.S.splitIn(r.L[0], ivSet(0xFFFD, 0xFFFD))
			if ok == nil {
				continue
			}
			if !c.ob(ok.values(l).Size() <= 100 && ok.values(m).Size() <= 100 && ok.values(t).Size() <= 100, "accepts", c.pos(join), "Join accepts runes in the cell %s", ok.describe()) {
				continue
			}
			for _, b := range c.run(e, ok, split, []Value{VInt{r.L[0]}}, true) {
				for _, q := range c.ints(split, b.S, b.V, 3) {
					n++
					bad := q.S.pointwise([]Lin{l, m, t, q.L[0], q.L[1], q.L[2]}, func(v []int64) bool {
						return o.toLead(v[0]) == v[3] && o.toMedial(v[1]) == v[4] && o.toTail(v[2]) == v[5]
					})
					c.ob(bad == "", "inverse", c.pos(split), "Split(Join(l, m, t)) is not (Lead(l), Medial(m), Tail(t)) in the cell %s, e.g. (l, m, t, results) %s", q.S.describe(), bad)
				}
			}
		}
	}
	c.ob(n > 0, "vacuous", c.pos(join), "Join accepts nothing")
	// Lead, Medial and Tail in that clause are the package's own.
	u := []ISet{unicodeDom}
	c.scalar(lead, u, oneRune(o.toLead), []int64{0})
	c.scalar(medial, u, oneRune(o.toMedial), []int64{0})
	c.scalar(tail, u, oneRune(o.toTail), []int64{0})
}

func checkConstants(c *Run) {
	o := oracle()
	sp := c.p.pkg("")
	scope := sp.Pkg.Scope()
	var names []string
	for n := range o.consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		obj, ok := scope.Lookup(n).(*types.Const)
		if !c.ob(ok, "constant", n, "constant %s not found", n) {
			continue
		}
		v, exact := constant.Int64Val(constant.ToInt(obj.Val()))
		where := c.p.prog.Fset.Position(obj.Pos())
		c.ob(exact && v == o.consts[n], "constant", relPath(where.Filename)+" "+n, "%s is %#x, want %#x", n, v, o.consts[n])
		c.sample("%s = %#x", n, v)
	}
	c.notes["constants"] = len(names)
	// Any further exported constant must be a jamo (or name nothing).
	for _, n := range scope.Names() {
		obj, ok := scope.Lookup(n).(*types.Const)
		if !ok || !obj.Exported() {
			continue
		}
		if _, known := o.consts[n]; !known {
			c.notes["further exported constants"]++
		}
	}
}

// elemsOf are the elements of a slice value, if all are known.
func elemsOf(e *Engine, s *State, v VSlice) (outs []struct {
	S  *State
	V  []Value
	OK bool
}) {
	for _, x := range e.content(s, v) {
		var vs []Value
		ok := true
		for _, p := range trim(x.S, x.R) {
			if p.K != pElems {
				ok = false
			}
			vs = append(vs, p.V...)
		}
		outs = append(outs, struct {
			S  *State
			V  []Value
			OK bool
		}{x.S, vs, ok})
	}
	return
}

func checkSplitMulti(c *Run) {
	o := oracle()
	fn := c.function("", "SplitMultiElement")
	if fn == nil {
		return
	}
	e, s := c.eng()
	x := symRune(e, "r", typeDom(types.Typ[types.Int32]))
	var dom []int64
	for r := int64(0); r <= 0x10FFFF; r++ {
		if o.compound[o.compatOf(r)] != nil {
			dom = append(dom, r)
		}
	}
	in := setOf(dom)
	n := 0
	for _, a := range c.run(e, s, fn, []Value{VInt{x}}, true) {
		tu, ok := a.V.(VTuple)
		if !c.ob(ok && len(tu) == 2, "signature", c.pos(fn), "two results expected") {
			return
		}
		sl, isSlice := tu[0].(VSlice)
		b, isBool := tu[1].(VBool)
		if !c.ob(isSlice && isBool, "result", c.pos(fn), "results not determined: %s, %s when %s", a.S.valStr(tu[0]), a.S.valStr(tu[1]), a.S.describe()) {
			continue
		}
		c.ob(sl.O == 0 || a.S.obj(sl.O).origin == origFresh, "shared", c.pos(fn), "the slice returned when %s is %s memory", a.S.describe(), originOf(a.S, sl.O))
		for _, el := range elemsOf(e, a.S, sl) {
			if !c.ob(el.OK, "result", c.pos(fn), "elements not determined when %s", el.S.describe()) {
				continue
			}
			yes, no := el.S.split(b.C)
			for _, st := range []*State{yes, no} {
				if st == nil {
					continue
				}
				hit, miss := st.splitIn(x, in)
				if miss != nil {
					c.ob(st == no || miss == nil, "value", c.pos(fn), "reports true for %s", miss.values(x))
					c.ob(len(el.V) == 0, "value", c.pos(fn), "returns %d elements for %s", len(el.V), miss.values(x))
				}
				if hit == nil {
					continue
				}
				n++
				c.ob(st == yes, "value", c.pos(fn), "reports false for %s", hit.values(x))
				ls := []Lin{x}
				good := true
				for _, v := range el.V {
					l, ok := lin(v)
					good = good && ok
					ls = append(ls, l)
				}
				bad := "elements not integers"
				if good {
					bad = hit.pointwise(ls, func(v []int64) bool {
						w := o.compound[o.compatOf(v[0])]
						if len(w) != len(v)-1 {
							return false
						}
						for i := range w {
							if w[i] != v[i+1] {
								return false
							}
						}
						return true
					})
				}
				c.ob(bad == "", "value", c.pos(fn), "wrong elements for r in %s, e.g. (r, elements) %s", hit.values(x), bad)
				c.sample("elements of %s: %s", hit.values(x), hit.valsKey("", el.V))
			}
		}
	}
	c.ob(n > 0, "vacuous", c.pos(fn), "no compound letter is split")
}

func originOf(s *State, o ObjID) string {
	if o == 0 {
		return "no"
	}
	return s.obj(o).origin.String()
}

// lastRune names the last rune of a string; the state must be one in which
// the string is not empty.
func lastRune(e *Engine, s *State, q *Seq) Lin {
	ls := lastRunes(e, s, q)
	best := ls[0]
	for _, l := range ls[1:] {
		if s.values(l).Size() < s.values(best).Size() {
			best = l
		}
	}
	return best
}

// lastRunes lists the symbols that stand for the last rune.
func lastRunes(e *Engine, s *State, q *Seq) []Lin {
	r := e.runeSeq(s, sub(q, konst(0), q.Len))
	at := r.Len.AddC(-1)
	out := []Lin{e.readSym(s, r, at)}
	for _, rd := range e.readList[r.ID] {
		if !symLin(rd.sym).Eq(out[0]) && s.entailsEq(rd.pos, at) {
			out = append(out, symLin(rd.sym))
		}
	}
	return out
}

// tailSets partitions runes by the trailing consonant of a syllable.
func tailOfSyllable(r int64) int64 { return oracle().syl[r][2] }

// byEmpty splits by the string being empty.
func byEmpty(s *State, q *Seq) (some, empty *State) {
	some, empty = s.split(Cond{CGe, q.Len.AddC(-1)})
	if some != nil && !some.feasible() {
		some = nil
	}
	if empty != nil && !empty.feasible() {
		empty = nil
	}
	return some, empty
}

func checkLastConsonant(c *Run) {
	for _, name := range []string{"LastConsonant", "EndsWithConsonant"} {
		fn := c.function("", name)
		if fn == nil {
			continue
		}
		want := tailOfSyllable
		if name == "EndsWithConsonant" {
			want = func(r int64) int64 { return b2i(tailOfSyllable(r) != 0) }
		}
		e, s := c.eng()
		w, q := symString(e, "word")
		outs := c.run(e, s, fn, []Value{w}, true)
		n := 0
		for _, a := range outs {
			for _, r := range c.ints(fn, a.S, a.V, 1) {
				some, empty := byEmpty(r.S, q)
				if empty != nil {
					c.ob(empty.values(r.L[0]).Equal(ivSet(0, 0)), "value", c.pos(fn), "%s of the empty string may be %s", name, empty.values(r.L[0]))
				}
				if some == nil {
					continue
				}
				var last Lin
				bad := ""
				n++
				for _, last = range lastRunes(e, some, q) {
					if bad = some.pointwise([]Lin{last, r.L[0]}, func(v []int64) bool { return want(v[0]) == v[1] }); bad == "" {
						break
					}
				}
				c.ob(bad == "", "value", c.pos(fn), "%s is wrong when %s, e.g. (last character, result) %s", name, some.describe(), bad)
				c.sample("%s is as specified for last characters %s", name, some.values(last))
			}
		}
		c.ob(n > 0, "vacuous", c.pos(fn), "no outcome")
	}
}

func checkPostposition(c *Run) {
	fn := c.function("", "AppendPostposition")
	if fn == nil {
		return
	}
	e, s := c.eng()
	word, q := symString(e, "word")
	with, _ := symString(e, "with")
	without, _ := symString(e, "without")
	ro := e.strEqual(s, with.R, constRope("으로")).(VBool).C
	var noTail, rieul []int64
	for _, iv := range runeDom {
		for r := iv.Lo; r <= iv.Hi; r++ {
			switch tailOfSyllable(r) {
			case 0:
				noTail = append(noTail, r)
			case 0x11AF:
				rieul = append(rieul, r)
			}
		}
	}
	nt, rs := setOf(noTail), setOf(rieul)
	n := 0
	check := func(s *State, got Value, without bool, w, wo VStr, why string) {
		n++
		exp, name := concat(word.R, w.R), "word + with"
		if without {
			exp, name = concat(word.R, wo.R), "word + without"
		}
		g, ok := got.(VStr)
		c.ob(ok && s.ropeEq(g.R, exp), "value", c.pos(fn), "result is %s, want %s, for a %s when %s", s.valStr(got), name, why, s.describe())
		c.sample("%s for a %s", name, why)
	}
	for _, a := range c.run(e, s, fn, []Value{word, with, without}, true) {
		some, empty := byEmpty(a.S, q)
		if empty != nil {
			check(empty, a.V, true, with, without, "empty word")
		}
		if some == nil {
			continue
		}
		last := lastRune(e, some, q)
		none, tail := some.splitIn(last, nt)
		if none != nil {
			check(none, a.V, true, with, without, "word without trailing consonant")
		}
		if tail == nil {
			continue
		}
		r, other := tail.splitIn(last, rs)
		if other != nil {
			check(other, a.V, false, with, without, "word with trailing consonant other than rieul")
		}
		if r == nil {
			continue
		}
		y, no := r.split(ro)
		if y != nil {
			check(y, a.V, true, with, without, "word with trailing rieul and with = 으로")
		}
		if no != nil {
			check(no, a.V, false, with, without, "word with trailing rieul and with other than 으로")
		}
	}
	c.ob(n >= 4, "vacuous", c.pos(fn), "only %d cases", n)
}

func init() {
	register("C03", "proof", "Split, SplitCompat and Join are interpreted in composition, for every syllable and for every triple of runes", checkInverse)
	register("C06", "proof", "the value of every exported jamo constant in the type-checked package is compared with the Unicode code point of the letter it names", checkConstants)
	register("C07", "proof", "SplitMultiElement is interpreted for every rune; elements are compared with the decompositions implied by Unicode names, and the returned memory must be allocated by the call", checkSplitMulti)
	register("C09", "proof", "LastConsonant and EndsWithConsonant are interpreted for a string of arbitrary length and content; the result is compared with the tail of the last decoded rune", checkLastConsonant)
	register("C10", "proof", "AppendPostposition is interpreted for three strings of arbitrary length and content; the result, as a sequence of symbolic pieces, is compared with the specified concatenation", checkPostposition)
}

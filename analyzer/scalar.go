package main

// Checks of the functions of the root package.

var unicodeDom = ivSet(0, 0x10FFFF)

func oneRune(f func(r int64) int64) func(v []int64) []int64 {
	return func(v []int64) []int64 { return []int64{f(v[0])} }
}

func init() {
	o := oracle
	u := []ISet{unicodeDom}
	register("C01", "proof", "Split and SplitCompat are interpreted for every rune value (partitioned in cells) and compared with Unicode's canonical decompositions", func(c *Run) {
		c.scalar(c.function("", "Split"), u, func(v []int64) []int64 {
			t := o().syl[v[0]]
			return t[:]
		}, []int64{0, 0, 0})
		c.scalar(c.function("", "SplitCompat"), u, func(v []int64) []int64 {
			t := o().syl[v[0]]
			return []int64{o().compatOf(t[0]), o().compatOf(t[1]), o().compatOf(t[2])}
		}, []int64{0, 0, 0})
	})
	register("C02", "proof", "Join is interpreted for every triple of runes (partitioned in cells) and compared with Unicode's canonical compositions", func(c *Run) {
		var l, m, t ISet
		for r := int64(0); r <= 0x10FFFF; r++ {
			if o().toLead(r) != 0 {
				l = append(l, Iv{r, r})
			}
			if o().toMedial(r) != 0 {
				m = append(m, Iv{r, r})
			}
			if o().toTail(r) != 0 || r == 0 {
				t = append(t, Iv{r, r})
			}
		}
		c.scalar(c.function("", "Join"), []ISet{normISet(l), normISet(m), normISet(t)}, func(v []int64) []int64 {
			return []int64{o().join[[3]int64{o().toLead(v[0]), o().toMedial(v[1]), o().toTail(v[2])}]}
		}, []int64{0xFFFD})
	})
	register("C04", "proof", "CompatJamo, Lead, Medial and Tail are interpreted for every rune value and compared with the mapping by Unicode character names", func(c *Run) {
		c.scalar(c.function("", "CompatJamo"), u, oneRune(o().compatOf), []int64{0})
		c.scalar(c.function("", "Lead"), u, oneRune(o().toLead), []int64{0})
		c.scalar(c.function("", "Medial"), u, oneRune(o().toMedial), []int64{0})
		c.scalar(c.function("", "Tail"), u, oneRune(o().toTail), []int64{0})
	})
	register("C05", "proof", "the predicates are interpreted for every rune value and compared with the sets of jamo by Unicode character names", func(c *Run) {
		isLead := func(r int64) bool { _, ok := o().lead[r]; return ok }
		isMedial := func(r int64) bool { _, ok := o().medial[r]; return ok }
		isTail := func(r int64) bool { _, ok := o().tail[r]; return ok }
		jaeum := func(r int64) bool {
			return isLead(r) || isTail(r) || o().compat[r] && o().medialOf[r] == 0
		}
		moeum := func(r int64) bool { return isMedial(r) || o().medialOf[r] != 0 }
		for _, x := range []struct {
			n string
			f func(int64) bool
		}{
			{"IsLead", isLead}, {"IsMedial", isMedial}, {"IsTail", isTail}, {"IsJaeum", jaeum}, {"IsMoeum", moeum},
			{"IsHangul", func(r int64) bool { _, ok := o().syl[r]; return ok || jaeum(r) || moeum(r) }},
		} {
			f := x.f
			c.scalar(c.function("", x.n), u, oneRune(func(r int64) int64 { return b2i(f(r)) }), []int64{0})
		}
	})
	register("C08", "proof", "Stroke is interpreted for every rune value (recursion inlined) and compared with the sum over the basic letters", func(c *Run) {
		c.scalar(c.function("", "Stroke"), u, oneRune(o().strokes), []int64{0})
	})
}

package main

// C16: the code page as From and To implement it.

// bytesAt evaluates a rope of bytes that is a finite function of ls, for
// every value of ls.
func (s *State) bytesAt(ls []Lin, r Rope, f func(args []int64, out []byte) bool) string {
	all := append([]Lin{}, ls...)
	type part struct {
		rune bool
	}
	var parts []part
	for _, p := range r {
		switch p.K {
		case pRune:
			l, ok := lin(p.V[0])
			if !ok {
				return "a rune not determined"
			}
			all = append(all, l)
			parts = append(parts, part{true})
		case pElems:
			for _, v := range p.V {
				l, ok := lin(v)
				if !ok {
					return "a byte not determined"
				}
				all = append(all, l)
				parts = append(parts, part{false})
			}
		default:
			return "the result is " + s.ropeStr(r)
		}
	}
	return s.pointwise(all, func(v []int64) bool {
		var out []byte
		for i, p := range parts {
			x := v[len(ls)+i]
			if p.rune {
				out = append(out, utf8Bytes(x)...)
			} else {
				out = append(out, byte(x))
			}
		}
		return f(v[:len(ls)], out)
	})
}

// single interprets From or To for an input of one character.
func (c *Run) single(name string, in Rope, args []Lin, e *Engine, s *State, f func(args []int64, out []byte) bool) {
	fn := c.function("cp949", name)
	if fn == nil {
		return
	}
	n := in.Len()
	o := s.alloc(&Obj{kind: oArr, origin: origInput, name: "in", rope: in})
	e.roots[o] = true
	k := 0
	for _, out := range c.run(e, s, fn, []Value{VSlice{O: o, Len: n}}, false) {
		k++
		tu, ok := out.V.(VTuple)
		if !c.ob(ok && len(tu) == 2, "signature", c.pos(fn), "two results expected") {
			return
		}
		sl, ok := tu[0].(VSlice)
		if !c.ob(ok && errKind(out.S, tu[1]) == "nil", "result", c.pos(fn), "%s of one character is %s when %s", name, out.S.valStr(out.V), out.S.describe()) {
			continue
		}
		for _, x := range e.content(out.S, sl) {
			bad := x.S.bytesAt(args, x.R, f)
			c.ob(bad == "", "result", c.pos(fn), "%s of one character: %s when %s", name, bad, x.S.describe())
		}
	}
	c.ob(k > 0, "vacuous", c.pos(fn), "%s has no outcome", name)
}

func checkTables(c *Run) {
	o := oracle()
	dec := map[int64]int64{}
	seen := 0
	{
		e, s := c.eng()
		a := symLin(e.newSym("first", ivSet(0x80, 0xff)))
		b := symLin(e.newSym("second", ivSet(0, 0xff)))
		c.single("From", Rope{elems(VInt{a}, VInt{b})}, []Lin{a, b}, e, s, func(v []int64, out []byte) bool {
			seen++
			rs := []rune(string(out))
			if len(rs) != 1 {
				return false
			}
			if rs[0] != runeError {
				dec[v[0]<<8|v[1]] = int64(rs[0])
			}
			return true
		})
		c.ob(seen == 0x8000, "vacuous", "encoding/cp949", "%d of %d pairs have an outcome", seen, 0x8000)
	}
	enc := map[int64]int64{}
	seen = 0
	{
		e, s := c.eng()
		dom := scalarDom.Minus(ivSet(0, 0x7f))
		x := symRune(e, "r", dom)
		for _, rp := range e.runePiece(s, x) {
			e.log = newLog()
			c.single("To", rp.R, []Lin{x}, e, rp.S, func(v []int64, out []byte) bool {
				seen++
				switch {
				case len(out) == 2:
					enc[v[0]] = int64(out[0])<<8 | int64(out[1])
				case len(out) != 1 || out[0] != '?':
					return false
				}
				return true
			})
		}
		c.ob(int64(seen) == dom.Size(), "vacuous", "encoding/cp949", "%d of %d runes have an outcome", seen, dom.Size())
	}
	c.cells += seen
	c.notes["pairs decoded"] = len(dec)
	c.notes["runes encoded"] = len(enc)
	const at = "encoding/cp949 (tables)"
	for k, r := range dec {
		if back, ok := enc[r]; !ok || back != k {
			c.ob(false, "inverse", at, "From maps %#x to %#x, and To maps that to %#x", k, r, back)
		} else {
			c.obls++
		}
		c.ob(k>>8 >= 0x80 && r >= 0x80 && r <= 0xffff, "range", at, "the code %#x of %#x", k, r)
	}
	for r, k := range enc {
		if back, ok := dec[k]; !ok || back != r {
			c.ob(false, "inverse", at, "To maps %#x to %#x, and From maps that to %#x", r, k, back)
		} else {
			c.obls++
		}
	}
	for k, r := range o.dec {
		if dec[k] != r {
			c.ob(false, "code page", at, "From maps %#x to %#x, code page 949 to %#x", k, dec[k], r)
		} else {
			c.obls++
		}
	}
	c.ob(len(dec) == len(o.dec) && len(enc) == len(o.dec), "code page", at, "%d codes and %d characters, code page 949 has %d", len(dec), len(enc), len(o.dec))
	c.sample("From: %d pairs, To: %d characters, inverse to each other", len(dec), len(enc))
}

func init() {
	register("C16", "proof", "From is interpreted for every pair of bytes and To for every rune; the two finite maps must be inverse to each other and the code page", checkTables)
}

package main

import (
	"golang.org/x/tools/go/ssa"
)

// Checks of the cp949 package.

// decodeHom is the code page from bytes to characters.
func decodeHom() *Hom {
	o := oracle()
	t := make([]int64, 0x10000)
	for i := range t {
		t[i] = runeError
	}
	for k, v := range o.dec {
		t[k] = v
	}
	return &Hom{Name: "From", dec: func(a, b int64) int64 { return t[(a&0xff)<<8|b&0xff] }}
}

// encodeHom is the code page from characters to bytes; with runes, it reads
// decoded runes.
func encodeHom(runes bool) *Hom {
	o := oracle()
	pairs := make([][]byte, 0x10000)
	for r := range pairs {
		if r < 0x80 {
			pairs[r] = []byte{byte(r)}
		} else {
			pairs[r] = []byte{'?'}
		}
	}
	for r, k := range o.enc {
		pairs[r] = []byte{byte(k >> 8), byte(k)}
	}
	q := []byte{'?'}
	h := &Hom{Name: "To", InRunes: runes, enc: func(r int64) []byte {
		if r >= 0 && r < 0x10000 {
			return pairs[r]
		}
		return q
	}}
	return h
}

// input is a slice of the caller with arbitrary content, somewhere in an
// array that is longer.
func (c *Run) input(e *Engine, s *State, name string, q *Seq) VSlice {
	spare := symLin(e.newSym("spare("+name+")", ivSet(0, maxLen)))
	pre := symLin(e.newSym("before("+name+")", ivSet(0, maxLen)))
	o := s.alloc(&Obj{kind: oArr, origin: origInput, name: name, rope: Rope{
		{K: pUnk, Ln: pre}, sub(q, konst(0), q.Len), {K: pUnk, Ln: spare}}})
	e.roots[o] = true
	return VSlice{O: o, Off: pre, Len: q.Len}
}

func symBytes(e *Engine, name string) *Seq {
	q := e.newSeq(name, false)
	q.Len = symLin(e.newSym("len("+name+")", ivSet(0, maxLen)))
	q.Final = func(*State) bool { return true }
	return q
}

// nilOr splits a state by whether an argument slice is nil.
func nilSlice() VSlice { return VSlice{} }

// errKind names an error value: nil, the name of an error variable, or "".
func errKind(s *State, v Value) string {
	switch v := v.(type) {
	case VNil:
		return "nil"
	case VErr:
		for g, id := range s.e.globals {
			if x := s.obj(id); x != nil {
				if y, ok := x.val.(VErr); ok && y.ID == v.ID {
					return g.RelString(nil)
				}
			}
		}
		return v.ID
	case VIface:
		if p, ok := v.V.(VPtr); ok {
			if n := errVar(s, p.O); n != "" {
				return n
			}
		}
	}
	return ""
}

// errVar finds the package variable that holds the error object o.
func errVar(s *State, o ObjID) string {
	for g, id := range s.e.globals {
		x := s.obj(id)
		if x == nil {
			continue
		}
		if i, ok := x.val.(VIface); ok {
			if p, ok := i.V.(VPtr); ok && p.O == o {
				return g.RelString(nil)
			}
		}
	}
	return ""
}

const unexpectedStream = "encoding/cp949.ErrCP949UnexpectedStream"

// conversion checks From or To against a translation, for every input.
func (c *Run) conversion(name string, hs []*Hom, mayTruncate, panics bool) {
	fn := c.function("cp949", name)
	if fn == nil {
		return
	}
	e, s := c.eng()
	q := symBytes(e, "in")
	for _, h := range hs {
		t := target{h, q}
		e.targets = append(e.targets, t)
		if !h.InRunes {
			s.ghosts[bndName(t)] = VInt{konst(0)}
		}
	}
	in := c.input(e, s, "in", q)
	n := 0
	for _, o := range c.run(e, s, fn, []Value{in}, panics) {
		n++
		c.converted(e, fn, o, hs[0], q, mayTruncate)
	}
	c.ob(n > 0, "vacuous", c.pos(fn), "%s has no outcome", name)
	// A nil argument is an empty one.
	e, s = c.eng()
	for _, o := range c.run(e, s, fn, []Value{nilSlice()}, panics) {
		tu, ok := o.V.(VTuple)
		if !c.ob(ok && len(tu) == 2, "signature", c.pos(fn), "two results expected") {
			return
		}
		sl, ok := tu[0].(VSlice)
		c.ob(ok && (sl.O == 0 || o.S.entailsEq(sl.Len, Lin{})) && errKind(o.S, tu[1]) == "nil", "nil input", c.pos(fn), "%s(nil) = %s", name, o.S.valStr(o.V))
	}
}

func (c *Run) converted(e *Engine, fn *ssa.Function, o SV, h *Hom, q *Seq, mayTruncate bool) {
	tu, ok := o.V.(VTuple)
	if !c.ob(ok && len(tu) == 2, "signature", c.pos(fn), "two results expected") {
		return
	}
	sl, ok := tu[0].(VSlice)
	if !c.ob(ok, "result", c.pos(fn), "%s: result %s not determined when %s", fn.Name(), o.S.valStr(tu[0]), o.S.describe()) {
		return
	}
	switch k := errKind(o.S, tu[1]); {
	case k == "nil":
		ropes := []contentRes{{S: o.S}}
		if sl.O != 0 {
			ropes = e.content(o.S, sl)
		}
		for _, x := range ropes {
			good := false
			for _, t := range e.allTargets() {
				hi, ok := e.covers(x.S, t.H, t.Q, konst(0), x.R)
				to := t.Q.Len
				if ok && x.S.entailsEq(hi, to) {
					good = true
					break
				}
			}
			if !good {
				good = x.S.entailsEq(q.Len, Lin{}) && x.S.entailsEq(x.R.Len(), Lin{})
			}
			c.ob(good, "result", c.pos(fn), "%s(in) returns %s, which is not the conversion of all of in%s; when %s", fn.Name(), x.S.ropeStr(x.R), e.mismatches(), x.S.describe())
			if good {
				c.sample("%s(in) = %s when %s", fn.Name(), x.S.ropeStr(x.R), x.S.describe())
			}
		}
	case mayTruncate && hasSuffix(k, unexpectedStream):
		c.ob(sl.O == 0 || o.S.entailsEq(sl.Len, Lin{}), "data", c.pos(fn), "%s returns data %s with an error", fn.Name(), o.S.valStr(sl))
		c.ob(e.truncated(o.S, h, q), "error", c.pos(fn), "%s returns %s, but in is not known to end inside a character, when %s (boundary %s)", fn.Name(), k, o.S.describe(), o.S.valStr(o.S.ghosts[bndName(target{h, q})]))
		c.sample("%s(in) is an error when %s", fn.Name(), o.S.describe())
	default:
		c.ob(false, "error", c.pos(fn), "%s returns the error %s when %s", fn.Name(), o.S.valStr(tu[1]), o.S.describe())
	}
}

// truncated: q ends one byte after a boundary between characters, with a byte
// that is the first of two.
func (e *Engine) truncated(s *State, h *Hom, q *Seq) bool {
	g := bndName(target{h, q})
	e.advance(s, g)
	v, ok := s.ghosts[g].(VInt)
	if !ok || !s.entailsEq(v.L.AddC(1), q.Len) {
		return false
	}
	b, ok := e.peek(s, q, v.L)
	return ok && s.values(b).Subset(ivSet(0x80, 0xff))
}

func init() {
	register("C14", "proof", "From is interpreted for a byte sequence of arbitrary length and content, with inductive invariants found for its loops; every result must be the code page's translation of all of it, and the error returned exactly when it ends inside a character", func(c *Run) {
		c.conversion("From", []*Hom{decodeHom()}, true, false)
	})
	register("C15", "proof", "To is interpreted for a byte sequence of arbitrary length and content, with inductive invariants found for its loops; every result must be the code page's translation of all of it", func(c *Run) {
		c.conversion("To", []*Hom{encodeHom(false), encodeHom(true)}, false, false)
	})
}

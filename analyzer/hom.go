package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Hom is a translation of a sequence, defined token by token by an oracle:
// the specification the analysed code is compared with.
type Hom struct {
	Name     string
	InRunes  bool                     // reads runes, else bytes
	OutRunes bool                     // its elements are runes (written as such, or as UTF-8)
	dec      func(b0, b1 int64) int64 // two bytes to a rune
	enc      func(r int64) []byte     // a rune to bytes
	conv     func(r int64) int64      // a rune to a rune
}

// target says that a check is about the translation H of sequence Q.
type target struct {
	H *Hom
	Q *Seq
}

// bytesOut is what a rune becomes, as bytes, for rune-reading translations.
func (h *Hom) bytesOut(r int64) []byte {
	if h.enc != nil {
		return h.enc(r)
	}
	return utf8Bytes(h.conv(r))
}

// runeOut checks that l is the translation of the rune x.
func (h *Hom) runeOut(s *State, x, l Lin) bool {
	if h.conv == nil {
		return false
	}
	return s.pointwise([]Lin{x, l}, func(v []int64) bool { return h.conv(v[0]) == v[1] }) == ""
}

// pointwise checks a relation between forms for every value of their root in
// this state. It returns "" if it holds, else an example or reason.
func (s *State) pointwise(ls []Lin, f func(v []int64) bool) string {
	allConst := true
	for _, l := range ls {
		if !l.IsConst() {
			allConst = false
		}
	}
	v := make([]int64, len(ls))
	if allConst {
		for i, l := range ls {
			v[i] = l.C
		}
		if f(v) {
			return ""
		}
		return fmt.Sprint(hexes(v))
	}
	tfs, ok := s.tabSmall(ls...)
	if !ok {
		return "the values are not related by a finite function"
	}
	bad := ""
	s.rootSet(tfs[0].root).Each(func(x int64) bool {
		for i := range tfs {
			v[i] = tfs[i].f(x)
		}
		if !f(v) {
			bad = fmt.Sprint(hexes(v))
			return false
		}
		return true
	})
	return bad
}

func hexes(v []int64) []string {
	var out []string
	for _, x := range v {
		out = append(out, fmt.Sprintf("%#x", x))
	}
	return out
}

// tokenLen is the length of the token of h at p, if the state decides it.
func (e *Engine) tokenLen(s *State, h *Hom, q *Seq, p Lin) (Lin, bool) {
	if h.InRunes {
		if _, ok := e.readSyms[fmt.Sprintf("%d@%s", q.ID, p.Key())]; !ok {
			return Lin{}, false
		}
		return konst(1), true
	}
	b, ok := e.peek(s, q, p)
	if !ok {
		// Each byte of a truncated sequence is invalid on its own.
		if h.dec == nil && e.incAt(s, q, p) {
			return konst(1), true
		}
		return Lin{}, false
	}
	vs := s.values(b)
	if vs.Subset(ivSet(0, 0x7f)) {
		return konst(1), true
	}
	if !vs.Subset(ivSet(0x80, 0xff)) {
		return Lin{}, false
	}
	if h.dec != nil {
		if _, ok := e.peek(s, q, p.AddC(1)); ok {
			return konst(2), true
		}
		return Lin{}, false
	}
	if _, w, ok := e.fullAt(s, q, p); ok {
		return w, true
	}
	if e.incAt(s, q, p) {
		return konst(1), true
	}
	return Lin{}, false
}

// peek finds the symbol of an element that was read (or can be named).
func (e *Engine) peek(s *State, q *Seq, p Lin) (Lin, bool) {
	if x, ok := e.readSyms[fmt.Sprintf("%d@%s", q.ID, p.Key())]; ok {
		return symLin(x), true
	}
	for _, rd := range e.readList[q.ID] {
		if s.entailsEq(rd.pos, p) {
			return symLin(rd.sym), true
		}
	}
	return Lin{}, false
}

// fullAt is the rune at p if the state knows that it is complete.
func (e *Engine) fullAt(s *State, q *Seq, p Lin) (r, w Lin, ok bool) {
	if _, ok := s.facts[fmt.Sprintf("full|%d@%s", q.ID, p.Key())]; ok {
		r, w = e.runeAt(q, p)
		return r, w, true
	}
	for _, rd := range e.readList[q.ID] {
		if _, ok := s.facts[fmt.Sprintf("full|%d@%s", q.ID, rd.pos.Key())]; ok && s.entailsEq(rd.pos, p) {
			r, w = e.runeAt(q, rd.pos)
			return r, w, true
		}
	}
	return Lin{}, Lin{}, false
}

// incAt tells whether p is in an incomplete sequence at the final end of q.
func (e *Engine) incAt(s *State, q *Seq, p Lin) bool {
	if q.Final == nil || !q.Final(s) {
		return false
	}
	pre := fmt.Sprintf("incpos|%d@", q.ID)
	for k, at := range s.facts {
		if strings.HasPrefix(k, pre) && s.entails(p.Sub(at)) {
			end := s.facts["inc|"+k[len("incpos|"):]]
			if s.entailsEq(end, q.Len) && s.entails(end.Sub(p).AddC(-1)) {
				return true
			}
		}
	}
	return false
}

// consume matches the front of r with the translation of one token of q at p
// (or of a whole translated stretch).
func (e *Engine) consume(s *State, h *Hom, q *Seq, p Lin, r Rope) (np Lin, rest Rope, ok bool) {
	if len(r) == 0 {
		return p, r, false
	}
	f := r[0]
	if f.K == pHom && f.Hom == h && f.Seq == q && s.entailsEq(f.Lo, p) {
		return f.Hi, r[1:], true
	}
	n, ok := e.tokenLen(s, h, q, p)
	if !ok {
		if h.InRunes && h.conv != nil && f.K == pSub && f.Seq == q {
			return p, r, false
		}
		return p, r, false
	}
	if q.Len.T != nil || q.Len.C != 0 {
		// Past the end there are no tokens.
		if !s.entails(q.Len.Sub(p).Sub(n)) {
			return p, r, false
		}
	}
	var args []Lin
	var want func(v []int64) []byte // expected bytes
	var wantRune func(v []int64) int64
	b, read := e.peek(s, q, p)
	switch {
	case h.InRunes:
		args = []Lin{b}
		if h.conv != nil {
			wantRune = func(v []int64) int64 { return h.conv(v[0]) }
		} else {
			want = func(v []int64) []byte { return h.enc(v[0]) }
		}
	case read && s.values(b).Subset(ivSet(0, 0x7f)):
		args = []Lin{b}
		if h.conv != nil {
			wantRune = func(v []int64) int64 { return h.conv(v[0]) }
		} else {
			want = func(v []int64) []byte { return []byte{byte(v[0])} }
		}
	case h.dec != nil:
		b1, _ := e.peek(s, q, p.AddC(1))
		args = []Lin{b, b1}
		wantRune = func(v []int64) int64 { return h.dec(v[0], v[1]) }
	default:
		if x, _, full := e.fullAt(s, q, p); full {
			args = []Lin{x}
			if h.conv != nil {
				wantRune = func(v []int64) int64 { return h.conv(v[0]) }
			} else {
				want = func(v []int64) []byte { return h.enc(v[0]) }
			}
		} else {
			args = []Lin{konst(runeError)}
			if h.conv != nil {
				wantRune = func(v []int64) int64 { return runeError }
			} else {
				want = func(v []int64) []byte { return h.enc(runeError) }
			}
		}
	}
	bad := ""
	switch {
	case f.K == pRune && wantRune != nil:
		l := f.V[0].(VInt).L
		bad = s.pointwise(append(args, l), func(v []int64) bool {
			w := wantRune(v)
			g := v[len(v)-1]
			return w == g || w == runeError && (g < 0 || g > 0x10ffff || g >= 0xd800 && g <= 0xdfff)
		})
		rest = r[1:]
	case f.K == pSub && !f.U8 && f.Seq == q && s.entailsEq(f.Lo, p) && (h.conv != nil && h.InRunes):
		// A rune left in place.
		bad = s.pointwise(args, func(v []int64) bool { return wantRune(v) == v[0] })
		g := sub(q, f.Lo.Add(n), f.Hi)
		rest = append(Rope{g}, r[1:]...)
	case f.K == pElems && h.OutRunes && h.InRunes && !f.U8 && e.runeElems(s, f):
		l, isInt := lin(f.V[0])
		if !isInt {
			return p, r, false
		}
		bad = s.pointwise(append(args, l), func(v []int64) bool { return wantRune(v) == v[len(v)-1] })
		if bad != "" {
			// The elements may also be the bytes of its UTF-8 form.
			if rr, ok := e.matchBytes(s, f, r, args, func(v []int64) []byte { return utf8Bytes(wantRune(v)) }); ok {
				return p.Add(n), rr, true
			}
		}
		rest = dropElems(r, 1)
	case f.K == pElems:
		if wantRune != nil {
			wr := wantRune
			want = func(v []int64) []byte { return utf8Bytes(wr(v)) }
		}
		rr, ok := e.matchBytes(s, f, r, args, want)
		if !ok {
			e.mismatch(s, h, q, p, f, args, "")
			return p, r, false
		}
		return p.Add(n), rr, true
	default:
		return p, r, false
	}
	if bad != "" {
		e.mismatch(s, h, q, p, f, args, bad)
		return p, r, false
	}
	return p.Add(n), trimFront(s, rest), true
}

func (e *Engine) runeElems(s *State, f Piece) bool { return true }

func trimFront(s *State, r Rope) Rope {
	for len(r) > 0 && s.entailsEq(r[0].Ln, Lin{}) {
		r = r[1:]
	}
	return r
}

func dropElems(r Rope, k int) Rope {
	if len(r[0].V) == k {
		return r[1:]
	}
	return append(Rope{elems(r[0].V[k:]...)}, r[1:]...)
}

// matchBytes matches explicit elements with expected bytes.
func (e *Engine) matchBytes(s *State, f Piece, r Rope, args []Lin, want func(v []int64) []byte) (Rope, bool) {
	// The number of bytes must be the same throughout.
	k := -1
	bad := s.pointwise(args, func(v []int64) bool {
		n := len(want(v))
		if k < 0 {
			k = n
		}
		return n == k
	})
	if bad != "" || k < 0 || k > len(f.V) {
		return nil, false
	}
	ls := append([]Lin{}, args...)
	for _, v := range f.V[:k] {
		l, ok := lin(v)
		if !ok {
			return nil, false
		}
		ls = append(ls, l)
	}
	bad = s.pointwise(ls, func(v []int64) bool {
		w := want(v[:len(args)])
		for i, b := range w {
			if int64(b) != v[len(args)+i] {
				return false
			}
		}
		return true
	})
	if bad != "" {
		return nil, false
	}
	return dropElems(r, k), true
}

// mismatch remembers a place where output differs from the specification,
// for the report should the property not be established.
func (e *Engine) mismatch(s *State, h *Hom, q *Seq, p Lin, f Piece, args []Lin, bad string) {
	msg := fmt.Sprintf("output %s for %s", s.ropeStr(Rope{f}), h.Name)
	for i, a := range args {
		if i == 0 {
			msg += " of token with"
		}
		msg += fmt.Sprintf(" %s in %s", s.linStr(a), s.values(a))
	}
	if bad != "" {
		msg += " e.g. " + bad
	}
	if len(e.mism) < 50 {
		e.mism[msg] = true
	}
}

func (e *Engine) noteMismatch(s *State, h *Hom, site ssa.Instruction, why string) {
	if len(e.mism) < 50 {
		e.mism[fmt.Sprintf("%s: %s when %s", e.pos(site), why, s.describe())] = true
	}
}

// covers checks that r is exactly the translation of q from lo, and returns
// how far it reaches.
func (e *Engine) covers(s *State, h *Hom, q *Seq, lo Lin, r Rope) (hi Lin, ok bool) {
	p := lo
	r = trim(s, r)
	for len(r) > 0 {
		np, rest, ok := e.consume(s, h, q, p, r)
		if !ok {
			return p, false
		}
		p, r = np, rest
	}
	return p, true
}

// foldRope rewrites output explicit in r to translated stretches.
func (e *Engine) foldRope(s *State, r Rope, anchors []anchor) Rope {
	r = trim(s, r)
	has := false
	for i := 0; i < len(r); i++ {
		if r[i].K != pHom || r[i].U8 {
			continue
		}
		has = true
		h, q := r[i].Hom, r[i].Seq
		p, rest := r[i].Hi, r[i+1:]
		n := r[i].Ln
		for len(rest) > 0 {
			np, nr, ok := e.consume(s, h, q, p, rest)
			if !ok {
				break
			}
			n = n.Add(ropeLen(rest).Sub(ropeLen(nr)))
			p, rest = np, nr
		}
		g := r[i]
		g.Hi, g.Ln = p, n
		r = append(append(append(Rope{}, r[:i]...), g), rest...)
	}
	if has {
		return r
	}
	for _, t := range e.allTargets() {
		for _, a := range anchors {
			for k := 0; k < len(r); k++ {
				if r[k].K == pUnk {
					continue
				}
				p, rest := a.from, append(Rope{}, r[k:]...)
				n := Lin{}
				steps := 0
				good := true
				for !s.entailsEq(p, a.to) {
					np, nr, ok := e.consume(s, t.H, t.Q, p, rest)
					if !ok || steps > 64 {
						good = false
						break
					}
					n = n.Add(ropeLen(rest).Sub(ropeLen(nr)))
					p, rest = np, nr
					steps++
				}
				if good && steps > 0 {
					g := Piece{K: pHom, Hom: t.H, Seq: t.Q, Lo: a.from, Hi: a.to, Ln: n}
					return append(append(append(Rope{}, r[:k]...), g), rest...)
				}
			}
		}
	}
	return r
}

func ropeLen(r Rope) Lin { return r.Len() }

type anchor struct{ from, to Lin }

// allTargets adds to the targets of the check the rune sequences decoded
// from their byte sequences.
func (e *Engine) allTargets() []target {
	var out []target
	for _, t := range e.targets {
		if !t.H.InRunes {
			out = append(out, t)
			continue
		}
		var keys []string
		for k := range e.named {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			q := e.named[k]
			if q.Runes && q.Of != nil && q.Of == t.Q {
				out = append(out, target{t.H, q})
			}
		}
	}
	return out
}

// ropeEq tells whether two ropes are equal in s.
func (s *State) ropeEq(a, b Rope) bool {
	a, b = trim(s, a), trim(s, b)
	for len(a) > 0 && len(b) > 0 {
		p, q := a[0].unfold(s), b[0].unfold(s)
		if p.K != q.K {
			return false
		}
		switch p.K {
		case pElems:
			n := len(p.V)
			if len(q.V) < n {
				n = len(q.V)
			}
			for i := 0; i < n; i++ {
				if !s.valEq(p.V[i], q.V[i]) {
					return false
				}
			}
			a, b = dropElems(a, n), dropElems(b, n)
			continue
		case pRune:
			if !s.valEq(p.V[0], q.V[0]) {
				return false
			}
		case pSub, pHom:
			if p.Seq != q.Seq || p.Hom != q.Hom || p.U8 != q.U8 || !s.entailsEq(p.Lo, q.Lo) {
				return false
			}
			if !s.entailsEq(p.Hi, q.Hi) {
				// One may be cut in more pieces than the other.
				if s.entails(p.Hi.Sub(q.Hi)) {
					p.Lo = q.Hi
					p.Ln = p.Hi.Sub(p.Lo)
					a = append(Rope{p}, a[1:]...)
					b = b[1:]
					continue
				}
				if s.entails(q.Hi.Sub(p.Hi)) {
					q.Lo = p.Hi
					q.Ln = q.Hi.Sub(q.Lo)
					b = append(Rope{q}, b[1:]...)
					a = a[1:]
					continue
				}
				return false
			}
		default:
			return false
		}
		a, b = a[1:], b[1:]
	}
	return len(a) == 0 && len(b) == 0
}

func (s *State) valEq(x, y Value) bool {
	a, ok1 := lin(x)
	b, ok2 := lin(y)
	if ok1 && ok2 {
		return s.entailsEq(a, b)
	}
	return s.valKey(x) == s.valKey(y)
}

// advance moves a ghost that marks a boundary between tokens of a target
// over the tokens the state knows.
func (e *Engine) advance(s *State, ghost string) {
	v, ok := s.ghosts[ghost].(VInt)
	if !ok {
		return
	}
	p := v.L
	for _, t := range e.targets {
		if bndName(t) != ghost {
			continue
		}
		for i := 0; i < 64; i++ {
			n, ok := e.tokenLen(s, t.H, t.Q, p)
			if !ok || !s.entails(t.Q.Len.Sub(p).Sub(n)) {
				break
			}
			p = p.Add(n)
		}
	}
	s.ghosts[ghost] = VInt{p}
}

func bndName(t target) string { return fmt.Sprintf("bnd:%s:%d", t.H.Name, t.Q.ID) }

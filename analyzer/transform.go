package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Checks of the x/text transformers: C20, C21.

// method is the method of a type, by name.
func (c *Run) method(t types.Type, name string) *ssa.Function {
	ms := c.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// transformer interprets NewCP949Encoding().ctor() and finds the
// Transformer field of the result.
func (c *Run) transformer(e *Engine, s *State, ctor string) (*State, VIface, bool) {
	s, enc, t, ok := c.encoding(e, s)
	if !ok {
		return nil, VIface{}, false
	}
	return c.transformerOf(e, s, enc, t, ctor)
}

// encoding interprets NewCP949Encoding().
func (c *Run) encoding(e *Engine, s *State) (*State, Value, types.Type, bool) {
	fn := c.function("cp949", "NewCP949Encoding")
	if fn == nil {
		return nil, nil, nil, false
	}
	outs := c.run(e, s, fn, nil, true)
	if !c.ob(len(outs) == 1, "constructor", c.pos(fn), "NewCP949Encoding has %d outcomes", len(outs)) {
		return nil, nil, nil, false
	}
	return outs[0].S, outs[0].V, fn.Signature.Results().At(0).Type(), true
}

func (c *Run) transformerOf(e *Engine, s *State, enc Value, t types.Type, ctor string) (*State, VIface, bool) {
	m := c.method(t, ctor)
	if !c.ob(m != nil, "anchor", t.String(), "no method %s", ctor) {
		return nil, VIface{}, false
	}
	outs := c.run(e, s, m, []Value{enc}, true)
	if !c.ob(len(outs) == 1, "constructor", c.pos(m), "%s has %d outcomes", ctor, len(outs)) {
		return nil, VIface{}, false
	}
	s = outs[0].S
	p, ok := outs[0].V.(VPtr)
	if !c.ob(ok && p.O != 0, "constructor", c.pos(m), "%s returns %s", ctor, s.valStr(outs[0].V)) {
		return nil, VIface{}, false
	}
	st := m.Signature.Results().At(0).Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Transformer" {
			continue
		}
		v := project(project(s.obj(p.O).val, p.Path), []int{i})
		t, ok := v.(VIface)
		c.ob(ok, "constructor", c.pos(m), "the Transformer of %s is %s", ctor, s.valStr(v))
		return s, t, ok
	}
	c.ob(false, "anchor", c.pos(m), "no Transformer field")
	return nil, VIface{}, false
}

// own marks everything reachable from v as the receiver's.
func own(s *State, v Value) {
	seen := map[ObjID]bool{}
	var visit func(v Value)
	obj := func(o ObjID) {
		if o == 0 || seen[o] {
			return
		}
		seen[o] = true
		x := s.obj(o)
		if x == nil {
			return
		}
		if x.origin == origFresh {
			s.mut(o).origin = origOwn
		}
		if x.val != nil {
			visit(x.val)
		}
		for _, p := range x.rope {
			for _, v := range p.V {
				visit(v)
			}
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case VPtr:
			obj(v.O)
		case VSlice:
			obj(v.O)
		case VIface:
			visit(v.V)
		case VStruct:
			for _, f := range v.F {
				visit(f)
			}
		}
	}
	visit(v)
}

// parts visits the values reachable from v, each with its access path.
func parts(s *State, v Value, f func(path string, o ObjID, field []int, v Value)) {
	seen := map[ObjID]bool{}
	var visit func(path string, o ObjID, field []int, v Value)
	obj := func(path string, o ObjID) {
		if o == 0 || seen[o] {
			return
		}
		seen[o] = true
		if x := s.obj(o); x != nil && x.val != nil {
			visit(path, o, nil, x.val)
		}
	}
	visit = func(path string, o ObjID, field []int, v Value) {
		switch v := v.(type) {
		case VStruct:
			for i, x := range v.F {
				visit(fmt.Sprintf("%s.%d", path, i), o, append(field[:len(field):len(field)], i), x)
			}
			return
		case VPtr:
			obj(path+"*", v.O)
		case VIface:
			visit(path+"!", o, nil, v.V)
			return
		}
		if o != 0 {
			f(path, o, field, v)
		}
	}
	visit("", 0, nil, v)
}

// changedParts notes the parts of v that differ between two states.
func (e *Engine) changedParts(a, b *State, v Value, changed map[string]bool) {
	old := map[string]Value{}
	parts(a, v, func(path string, o ObjID, field []int, v Value) { old[path] = v })
	parts(b, v, func(path string, o ObjID, field []int, v Value) {
		w, ok := old[path]
		if x, isSlice := v.(VSlice); isSlice && ok {
			y, _ := w.(VSlice)
			if x.O != y.O || x.O != 0 && (a.obj(x.O) != b.obj(x.O) || !b.entailsEq(x.Len, y.Len) || !b.entailsEq(x.Off, y.Off)) {
				changed[path] = true
			}
			return
		}
		if !ok || a.valKey(w) != b.valKey(v) {
			changed[path] = true
		}
	})
}

// havocParts makes the noted parts of v arbitrary.
func (e *Engine) havocParts(s *State, v Value, changed map[string]bool) {
	type part struct {
		o     ObjID
		field []int
		v     Value
		path  string
	}
	var ps []part
	parts(s, v, func(path string, o ObjID, field []int, v Value) {
		if changed[path] {
			ps = append(ps, part{o, field, v, path})
		}
	})
	for _, p := range ps {
		var n Value
		switch x := p.v.(type) {
		case VInt:
			l := symLin(e.newSym("state"+p.path, ivSet(negInf, posInf)))
			n = VInt{l}
		case VBool:
			n = VBool{Cond{CGe, symLin(e.newSym("state"+p.path, ivSet(0, 1))).AddC(-1)}}
		case VSlice:
			ln := symLin(e.newSym("len(state"+p.path+")", ivSet(0, maxLen)))
			spare := symLin(e.newSym("spare(state"+p.path+")", ivSet(0, maxLen)))
			o := s.alloc(&Obj{kind: oArr, origin: origOwn, name: "state" + p.path, rope: Rope{{K: pUnk, Ln: ln.Add(spare)}}})
			n = VSlice{O: o, Len: ln}
		default:
			e.undecided(nil, "the state %s = %s of a transformer changes", p.path, s.valStr(x))
			continue
		}
		x := s.mut(p.o)
		x.val = setPath(x.val, p.field, n)
	}
}

type transform struct {
	c      *Run
	e      *Engine
	fn     *ssa.Function
	h      *Hom // of src bytes
	src    *Seq
	dstSeq *Seq
	dst    VSlice
	eof    Lin
	dec    bool
}

// transform interprets Transform from the transformer's initial state and, if
// Transform changes it, from any state that differs there.
func (c *Run) transform(ctor string, dec bool, each func(x *transform, o SV)) map[string]bool {
	changed := map[string]bool{}
	for round := 0; round < 8; round++ {
		n := len(changed)
		c.transformFrom(ctor, dec, changed, each)
		if len(changed) == n {
			break
		}
	}
	c.notes["changing parts of the transformer"] = len(changed)
	return changed
}

func (c *Run) transformFrom(ctor string, dec bool, changed map[string]bool, each func(x *transform, o SV)) {
	e, s := c.eng()
	s, tr, ok := c.transformer(e, s, ctor)
	if !ok {
		return
	}
	own(s, tr)
	e.havocParts(s, tr, changed)
	entry := s.fork()
	fn := c.method(tr.T, "Transform")
	if !c.ob(fn != nil, "anchor", tr.T.String(), "no method Transform") {
		return
	}
	e.log = newLog()
	x := &transform{c: c, e: e, fn: fn, dec: dec}
	x.eof = symLin(e.newSym("atEOF", ivSet(0, 1)))
	x.src = symBytes(e, "src")
	var hs []*Hom
	if dec {
		hs = []*Hom{decodeHom()}
	} else {
		hs = []*Hom{encodeHom(false)}
		eof := x.eof
		x.src.Final = func(s *State) bool { return s.entails(eof.AddC(-1)) }
	}
	x.h = hs[0]
	for _, h := range hs {
		t := target{h, x.src}
		e.targets = append(e.targets, t)
		s.ghosts[bndName(t)] = VInt{konst(0)}
	}
	x.dstSeq = symBytes(e, "dst")
	spare := symLin(e.newSym("spare(dst)", ivSet(0, maxLen)))
	o := s.alloc(&Obj{kind: oArr, origin: origOut, name: "dst", rope: Rope{
		sub(x.dstSeq, konst(0), x.dstSeq.Len), {K: pUnk, Ln: spare}}})
	e.roots[o] = true
	x.dst = VSlice{O: o, Len: x.dstSeq.Len}
	src := c.input(e, s, "src", x.src)
	eofs, not := s.split(Cond{CGe, x.eof.AddC(-1)})
	n := 0
	for _, s := range []*State{eofs, not} {
		if s == nil {
			continue
		}
		for _, o := range c.run(e, s, fn, []Value{tr.V, x.dst, src, VBool{Cond{CGe, x.eof.AddC(-1)}}}, true) {
			n++
			each(x, o)
			e.changedParts(entry, o.S, tr, changed)
		}
	}
	c.ob(n > 0, "vacuous", c.pos(fn), "%s has no outcome", fn)
}

func (x *transform) check(o SV) {
	c, e, s := x.c, x.e, o.S
	where := c.pos(x.fn)
	tu, ok := o.V.(VTuple)
	if !c.ob(ok && len(tu) == 3, "signature", where, "three results expected") {
		return
	}
	nDst, ok1 := lin(tu[0])
	nSrc, ok2 := lin(tu[1])
	if !c.ob(ok1 && ok2, "result", where, "counts %s not determined when %s", s.valStr(tu), s.describe()) {
		return
	}
	c.ob(s.entails(nDst) && s.entails(x.dst.Len.Sub(nDst)), "nDst", where, "nDst = %s is not known to be within dst, when %s", s.linStr(nDst), s.describe())
	if !c.ob(s.entails(nSrc) && s.entails(x.src.Len.Sub(nSrc)), "nSrc", where, "nSrc = %s is not known to be within src, when %s", s.linStr(nSrc), s.describe()) {
		return
	}
	for _, d := range e.content(s, VSlice{O: x.dst.O, Off: x.dst.Off, Len: nDst}) {
		hi, ok := e.covers(d.S, x.h, x.src, konst(0), d.R)
		good := ok && d.S.entailsEq(hi, nSrc) || d.S.entailsEq(nSrc, Lin{}) && d.S.entailsEq(nDst, Lin{})
		c.ob(good, "result", where, "dst[:%s] is %s, not the conversion of src[:%s]%s; when %s", d.S.linStr(nDst), d.S.ropeStr(d.R), d.S.linStr(nSrc), e.mismatches(), d.S.describe())
		if good {
			c.sample("dst[:%s] = conversion of src[:%s], error %s, when %s", d.S.linStr(nDst), d.S.linStr(nSrc), s.valStr(tu[2]), d.S.describe())
		}
	}
	short := x.src.Len.Sub(nSrc)
	eof := s.entails(x.eof.AddC(-1))
	cut := func() bool {
		if x.dec {
			b, ok := e.peek(s, x.src, nSrc)
			if !ok {
				return false
			}
			y, n := s.fork().splitIn(b, ivSet(0x80, 0xff))
			return (n == nil || !n.feasible()) && y != nil && y.entailsEq(short, konst(1))
		}
		return e.cutRune(s, x.src, nSrc)
	}
	switch k := errKind(s, tu[2]); {
	case k == "nil":
		c.ob(s.entailsEq(short, Lin{}), "error", where, "nil error with src[%s:] left, when %s", s.linStr(nSrc), s.describe())
	case k == "golang.org/x/text/transform.ErrShortSrc":
		c.ob(!eof && cut(), "error", where, "ErrShortSrc at %s, but src is not known to end inside a character with atEOF false, when %s", s.linStr(nSrc), s.describe())
	case k == "golang.org/x/text/transform.ErrShortDst":
		c.ob(x.noRoom(s, nSrc, x.dst.Len.Sub(nDst)), "error", where, "ErrShortDst at %s with %s bytes left, but the next character may fit, when %s", s.linStr(nSrc), s.linStr(x.dst.Len.Sub(nDst)), s.describe())
	case x.dec && hasSuffix(k, unexpectedStream):
		c.ob(eof && cut(), "error", where, "%s at %s, but src is not known to end inside a character with atEOF true, when %s", k, s.linStr(nSrc), s.describe())
	default:
		c.ob(false, "error", where, "error %s when %s", s.valStr(tu[2]), s.describe())
	}
}

// cutRune: q ends inside the rune at p.
func (e *Engine) cutRune(s *State, q *Seq, p Lin) bool {
	for _, rd := range append([]readRec{{pos: p}}, e.readList[q.ID]...) {
		end, ok := s.facts["inc|"+posKey(q, rd.pos)]
		if ok && s.entailsEq(rd.pos, p) && s.entailsEq(end, q.Len) {
			return true
		}
	}
	return false
}

// noRoom: the encoding of the character at p is longer than room, whatever
// the character is.
func (x *transform) noRoom(s *State, p, room Lin) bool {
	e := x.e
	var ln Lin
	n, ok := e.tokenLen(s, x.h, x.src, p)
	if !ok || !s.entails(x.src.Len.Sub(p).Sub(n)) {
		return false
	}
	if x.dec {
		b, ok := e.peek(s, x.src, p)
		if !ok {
			return false
		}
		if s.entailsEq(n, konst(1)) {
			ln = konst(1)
		} else {
			b1, ok := e.peek(s, x.src, p.AddC(1))
			if !ok {
				return false
			}
			ln, ok = s.mapInt2("expected length", b, b1, func(a, b int64) int64 { return int64(len(utf8Bytes(x.h.dec(a, b)))) })
			if !ok {
				return false
			}
		}
	} else {
		r := konst(runeError)
		b, read := e.peek(s, x.src, p)
		if v, _, full := e.fullAt(s, x.src, p); full {
			r = v
		} else if read && s.values(b).Subset(ivSet(0, 0x7f)) {
			r = b
		}
		ln = s.mapInt("expected length", r, func(v int64) int64 { return int64(len(x.h.enc(v))) })
	}
	good := true
	s.values(ln).Each(func(k int64) bool {
		y, _ := s.fork().split(Cond{CEq, ln.AddC(-k)})
		if y != nil && y.feasible() && !y.entails(konst(k).Sub(room).AddC(-1)) {
			good = false
		}
		return good
	})
	return good
}

func init() {
	const rule = "the Transform method of the transformer that the encoding hands out is interpreted for arbitrary dst, src and atEOF, with inductive invariants found for its loops; on every path the counts must be in range, dst[:nDst] the conversion of src[:nSrc], and the error one the contract allows in that state"
	register("C20", "proof", "decoder: "+rule, func(c *Run) {
		c.transform("NewDecoder", true, func(x *transform, o SV) { x.check(o) })
	})
	register("C21", "proof", "encoder: "+rule, func(c *Run) {
		c.transform("NewEncoder", false, func(x *transform, o SV) { x.check(o) })
	})
}

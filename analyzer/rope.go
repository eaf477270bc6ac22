package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cutRes is one case of cutting a rope in two.
type cutRes struct {
	S    *State
	L, R Rope
	OK   bool
}

// cutRope cuts r at position at (0 <= at <= len(r) must be known). Cases that
// the state does not decide become separate states.
func (e *Engine) cutRope(s *State, r Rope, at Lin) []cutRes {
	cum := konst(0)
	for i := 0; i < len(r); i++ {
		d := at.Sub(cum)
		if s.entailsEq(d, Lin{}) {
			return []cutRes{{s, r[:i:i], append(Rope{}, r[i:]...), true}}
		}
		end := cum.Add(r[i].Ln)
		if s.entailsEq(at, end) {
			return []cutRes{{s, append(Rope{}, r[:i+1]...), append(Rope{}, r[i+1:]...), true}}
		}
		// Is the cut within piece i?
		if !s.entails(end.Sub(at)) {
			if s.entails(at.Sub(end)) {
				cum = end
				continue
			}
			y, n := s.split(Cond{CGe, end.Sub(at)})
			var out []cutRes
			if y != nil {
				out = append(out, e.cutRope(y, r, at)...)
			}
			if n != nil {
				out = append(out, e.cutRope(n, r, at)...)
			}
			return out
		}
		if !s.entails(d) {
			return []cutRes{{S: s}}
		}
		return e.cutPiece(s, r, i, at, d)
	}
	if s.entailsEq(at, cum) {
		return []cutRes{{s, append(Rope{}, r...), nil, true}}
	}
	return []cutRes{{S: s}}
}

// cutPiece cuts r inside piece i, at offset d of it.
func (e *Engine) cutPiece(s *State, r Rope, i int, at, d Lin) []cutRes {
	p := r[i]
	res := func(a, b Piece) []cutRes {
		return []cutRes{{s, append(append(Rope{}, r[:i]...), a), append(Rope{b}, r[i+1:]...), true}}
	}
	switch p.K {
	case pUnk:
		a, b := p, p
		a.Ln, b.Ln = d, p.Ln.Sub(d)
		return res(a, b)
	case pSub:
		if p.U8 {
			break
		}
		m := p.Lo.Add(d)
		return res(sub(p.Seq, p.Lo, m), sub(p.Seq, m, p.Hi))
	case pHom:
		if p.Hom.InRunes && p.Hom.OutRunes && !p.U8 {
			// One element of output for each of the input.
			m := p.Lo.Add(d)
			a, b := p, p
			a.Hi, a.Ln = m, d
			b.Lo, b.Ln = m, p.Ln.Sub(d)
			return res(a, b)
		}
		if st := e.stream; st != nil && st.out != nil && p.Hom == st.h && p.Seq == st.in && !p.U8 {
			if c, ok := st.convAt(s, p.Lo); ok {
				st.addConv(s, p.Hi, c.Add(p.Ln))
				return res(sub(st.out, c, c.Add(d)), sub(st.out, c.Add(d), c.Add(p.Ln)))
			}
		}
		q := e.nameHom(p)
		return res(sub(q, konst(0), d), sub(q, d, q.Len))
	case pElems, pRune:
		if p.K == pElems && d.IsConst() {
			k := d.C
			if k < 0 || k > int64(len(p.V)) {
				return nil
			}
			return res(elems(p.V[:k:k]...), elems(p.V[k:]...))
		}
		if p.K == pRune {
			ps, ok := e.runeBytes(s, p)
			if ok {
				var out []cutRes
				for _, x := range ps {
					rr := append(append(Rope{}, r[:i]...), x.R...)
					rr = append(rr, r[i+1:]...)
					out = append(out, e.cutRope(x.S, rr, at)...)
				}
				return out
			}
			break
		}
		// A few possible offsets: one state each.
		vs := s.values(d)
		if vs.Size() <= 64 {
			var out []cutRes
			rest := s
			vs.Each(func(k int64) bool {
				if rest == nil {
					return false
				}
				y, n := rest.split(Cond{CEq, d.AddC(-k)})
				rest = n
				if y != nil && k >= 0 && k <= int64(len(p.V)) {
					out = append(out, cutRes{y, append(append(Rope{}, r[:i]...), elems(p.V[:k:k]...)), append(Rope{elems(p.V[k:]...)}, r[i+1:]...), true})
				}
				return true
			})
			return out
		}
	}
	a := Piece{K: pUnk, Ln: d}
	b := Piece{K: pUnk, Ln: p.Ln.Sub(d)}
	return res(a, b)
}

type sRope struct {
	S *State
	R Rope
}

// runeBytes turns a UTF-8 piece into explicit bytes, by length.
func (e *Engine) runeBytes(s *State, p Piece) ([]sRope, bool) {
	l := p.V[0].(VInt).L
	if s.values(l).Size() > tabLimit {
		return nil, false
	}
	var out []sRope
	rest := s
	for n := int64(1); n <= 4 && rest != nil; n++ {
		y, no := rest.split(Cond{CEq, p.Ln.AddC(-n)})
		rest = no
		if y == nil {
			continue
		}
		vs := make([]Value, n)
		for j := range vs {
			j := j
			vs[j] = VInt{y.mapInt(fmt.Sprintf("utf8byte%d", j), l, func(v int64) int64 {
				b := utf8Bytes(v)
				if j < len(b) {
					return int64(b[j])
				}
				return 0
			})}
		}
		out = append(out, sRope{y, Rope{elems(vs...)}})
	}
	return out, true
}

// nameHom makes the output of a translation a sequence of its own.
func (e *Engine) nameHom(p Piece) *Seq {
	key := fmt.Sprintf("%s|%d|%s|%s|%v", p.Hom.Name, p.Seq.ID, p.Lo.Key(), p.Hi.Key(), p.U8)
	if q, ok := e.named[key]; ok {
		return q
	}
	q := e.newSeq(fmt.Sprintf("%s(%s)", p.Hom.Name, p.Seq.Name), !p.U8 && p.Hom.OutRunes)
	q.Len = p.Ln
	q.HomOf, q.HSeq, q.HLo, q.HHi, q.HU8 = p.Hom, p.Seq, p.Lo, p.Hi, p.U8
	e.named[key] = q
	return q
}

func (e *Engine) newSeq(name string, runes bool) *Seq {
	e.nseq++
	return &Seq{ID: e.nseq, Name: name, Runes: runes}
}

// readSym is element at position pos of a sequence.
func (e *Engine) readSym(s *State, q *Seq, pos Lin) Lin {
	key := fmt.Sprintf("%d@%s", q.ID, pos.Key())
	if x, ok := e.readSyms[key]; ok {
		return symLin(x)
	}
	// A syntactically different position may be the same one.
	for _, rd := range e.readList[q.ID] {
		if len(rd.pos.T) > 0 || len(pos.T) > 0 {
			if s.entailsEq(rd.pos, pos) {
				return symLin(rd.sym)
			}
		}
	}
	dom := ivSet(0, 255)
	if q.Runes {
		dom = runeDom
	}
	x := e.newSym(fmt.Sprintf("%s[%s]", q.Name, s.linStr(pos)), dom)
	e.readSyms[key] = x
	e.readList[q.ID] = append(e.readList[q.ID], readRec{pos, x})
	e.readOf[x] = readDef{q, pos}
	return symLin(x)
}

type readRec struct {
	pos Lin
	sym Sym
}

type readDef struct {
	q   *Seq
	pos Lin
}

// runeDom is what decoding UTF-8 can give.
var runeDom = ISet{{0, 0xD7FF}, {0xE000, 0x10FFFF}}

func elemDom(t types.Type) ISet {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return typeDom(b)
	}
	return nil
}

func typeDom(b *types.Basic) ISet {
	switch b.Kind() {
	case types.Uint8:
		return ivSet(0, 255)
	case types.Int8:
		return ivSet(-128, 127)
	case types.Uint16:
		return ivSet(0, 0xffff)
	case types.Int16:
		return ivSet(-0x8000, 0x7fff)
	case types.Uint32:
		return ivSet(0, 0xffffffff)
	case types.Int32, types.UntypedRune:
		return ivSet(-0x80000000, 0x7fffffff)
	case types.Uint, types.Uint64, types.Uintptr:
		return ivSet(0, posInf)
	case types.Int, types.Int64, types.UntypedInt:
		return ivSet(negInf, posInf)
	}
	return nil
}

// anyOf is an unknown value of a type.
func (e *Engine) anyOf(s *State, t types.Type, why string) Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			e.nfresh++
			return VInt{symLin(e.newSym(fmt.Sprintf("%s#%d", why, e.nfresh), typeDom(b)))}
		}
		if b.Info()&types.IsBoolean != 0 {
			e.nfresh++
			x := e.newSym(fmt.Sprintf("%s#%d", why, e.nfresh), ivSet(0, 1))
			return VBool{Cond{CNe, symLin(x)}}
		}
		if b.Info()&types.IsString != 0 {
			n := e.freshLen("len")
			return VStr{Rope{Piece{K: pUnk, Ln: symLin(n)}}}
		}
	}
	return VUnk{why}
}

// readRope is element idx of r, with idx known to be in range. Cases the
// state does not decide become separate states.
func (e *Engine) readRope(s *State, r Rope, idx Lin, path []int, t types.Type, site ssa.Instruction) []SV {
	cum := konst(0)
	for i := 0; i < len(r); i++ {
		end := cum.Add(r[i].Ln)
		inside := Cond{CGe, end.Sub(idx).AddC(-1)}
		if i == len(r)-1 || s.entailsCond(inside) {
			return e.readPiece(s, r[i], idx.Sub(cum), path, t, site)
		}
		if s.entailsCond(inside.Not()) {
			cum = end
			continue
		}
		y, n := s.split(inside)
		var out []SV
		if y != nil {
			out = append(out, e.readPiece(y, r[i], idx.Sub(cum), path, t, site)...)
		}
		if n != nil {
			rest := Rope{Piece{K: pUnk, Ln: end}}
			rest = append(rest, r[i+1:]...)
			out = append(out, e.readRope(n, rest, idx, path, t, site)...)
		}
		return out
	}
	// The empty rope: only on contradictory paths.
	return nil
}

func (e *Engine) readPiece(s *State, p Piece, d Lin, path []int, t types.Type, site ssa.Instruction) []SV {
	switch p.K {
	case pSub:
		if p.U8 {
			break
		}
		return one(s, VInt{e.readSym(s, p.Seq, p.Lo.Add(d))})
	case pHom:
		if p.U8 {
			break
		}
		return one(s, VInt{e.readSym(s, e.nameHom(p), d)})
	case pRune:
		if ps, ok := e.runeBytes(s, p); ok {
			var out []SV
			for _, x := range ps {
				out = append(out, e.readPiece(x.S, x.R[0], d, path, t, site)...)
			}
			return out
		}
	case pElems:
		if d.IsConst() {
			if d.C < 0 || d.C >= int64(len(p.V)) {
				return nil
			}
			return one(s, project(p.V[d.C], path))
		}
		return e.tableRead(s, p.V, d, path, t, site)
	}
	return one(s, e.anyOf(s, t, "unknown"))
}

func project(v Value, path []int) Value {
	for _, i := range path {
		st, ok := v.(VStruct)
		if !ok {
			return VUnk{"field of non-struct"}
		}
		v = st.F[i]
	}
	return v
}

// tableRead is element d of a table of values.
// memo remembers the values of f on the root.
func (s *State) memo(root Sym, f func(int64) int64) func(int64) int64 {
	set := s.rootSet(root)
	if set.Empty() {
		return f
	}
	lo, hi := set.Hull()
	if hi-lo > 1<<21 {
		return f
	}
	const unset = -1 << 31
	var t []int32
	return func(x int64) int64 {
		if x < lo || x > hi {
			return f(x)
		}
		if t == nil {
			t = make([]int32, hi-lo+1)
			for i := range t {
				t[i] = unset
			}
		}
		if v := t[x-lo]; v != unset {
			return int64(v)
		}
		v := f(x)
		if v > unset && v < 1<<31 {
			t[x-lo] = int32(v)
		}
		return v
	}
}

// structRead is the read of a whole structure of integers: field by field.
func (e *Engine) structRead(s *State, vs []Value, d Lin, path []int) (Value, bool) {
	if len(vs) < 2 {
		return nil, false
	}
	if _, ok := s.tabSmall(d); !ok {
		return nil, false
	}
	col := make([]Value, len(vs))
	for i, v := range vs {
		col[i] = project(v, path)
	}
	if _, ok := col[0].(VStruct); !ok {
		return nil, false
	}
	return s.column(d, col)
}

func (s *State) column(d Lin, col []Value) (Value, bool) {
	switch x := col[0].(type) {
	case VStruct:
		out := x
		out.F = make([]Value, len(x.F))
		for j := range x.F {
			fs := make([]Value, len(col))
			for i, v := range col {
				st, ok := v.(VStruct)
				if !ok || len(st.F) != len(x.F) {
					return nil, false
				}
				fs[i] = st.F[j]
			}
			v, ok := s.column(d, fs)
			if !ok {
				return nil, false
			}
			out.F[j] = v
		}
		return out, true
	case VInt:
		ints := make([]int64, len(col))
		for i, v := range col {
			y, ok := v.(VInt)
			if !ok || !y.L.IsConst() {
				return nil, false
			}
			ints[i] = y.L.C
		}
		return VInt{s.mapInt("elem", d, func(i int64) int64 {
			if i < 0 || i >= int64(len(ints)) {
				return 0
			}
			return ints[i]
		})}, true
	}
	return nil, false
}

func (e *Engine) tableRead(s *State, vs []Value, d Lin, path []int, t types.Type, site ssa.Instruction) []SV {
	if v, ok := e.structRead(s, vs, d, path); ok {
		return one(s, v)
	}
	allConst := true
	ints := make([]int64, len(vs))
	for i, v := range vs {
		x, ok := project(v, path).(VInt)
		if !ok || !x.L.IsConst() {
			allConst = false
			break
		}
		ints[i] = x.L.C
	}
	if allConst {
		if _, ok := s.tabSmall(d); ok {
			return one(s, VInt{s.mapInt("elem", d, func(i int64) int64 {
				if i < 0 || i >= int64(len(ints)) {
					return 0
				}
				return ints[i]
			})})
		}
		return one(s, e.anyOf(s, t, "elem"))
	}
	// Group the indices by value.
	if _, ok := s.tabSmall(d); !ok {
		if len(vs) <= 16 {
			var out []SV
			rest := s
			for i := range vs {
				if rest == nil {
					break
				}
				y, n := rest.split(Cond{CEq, d.AddC(int64(-i))})
				rest = n
				if y != nil {
					out = append(out, SV{y, project(vs[i], path)})
				}
			}
			return out
		}
		e.undecided(site, "element %s of a table of non-constants", s.linStr(d))
		return nil
	}
	groups := map[string][]int64{}
	var order []string
	for i, v := range vs {
		k := s.valKey(project(v, path))
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], int64(i))
	}
	var out []SV
	rest := s
	for _, k := range order {
		if rest == nil {
			break
		}
		y, n := rest.splitIn(d, setOf(groups[k]))
		rest = n
		if y != nil {
			out = append(out, SV{y, project(vs[groups[k][0]], path)})
		}
	}
	return out
}

// valKey identifies a value.
func (s *State) valKey(v Value) string {
	switch v := v.(type) {
	case nil:
		return "unset"
	case VInt:
		return "i" + v.L.Key()
	case VBool:
		return fmt.Sprintf("b%d:%s", v.C.Op, v.C.L.Key())
	case VNil:
		return "nil"
	case VErr:
		return "e" + v.ID
	case VIface:
		return "if(" + v.T.String() + ")" + s.valKey(v.V)
	case VPtr:
		k := fmt.Sprintf("p%d%v", v.O, v.Path)
		if v.Idx != nil {
			k += "[" + v.Idx.Key() + "]"
		}
		return k
	case VSlice:
		k := fmt.Sprintf("s%d:%s:%s", v.O, v.Off.Key(), v.Len.Key())
		if v.Max != nil {
			k += ":" + v.Max.Key()
		}
		return k
	case VStr:
		return "str" + s.ropeKey(v.R)
	case VArr:
		return "arr" + s.ropeKey(v.R)
	case VBuilder:
		return "bld" + s.ropeKey(v.R)
	case VEmb:
		return fmt.Sprintf("emb%d", v.O)
	case VMap:
		return fmt.Sprintf("m%d", v.O)
	case VIter:
		return fmt.Sprintf("it%d", v.O)
	case VStruct:
		return s.valsKey("{", v.F)
	case VTuple:
		return s.valsKey("(", v)
	case VFunc:
		if v.B != nil {
			return "builtin " + v.B.Name()
		}
		return "f" + v.F.String() + s.valsKey("<", v.Free)
	case VUnk:
		return "unk"
	}
	return fmt.Sprintf("%T", v)
}

func (s *State) valsKey(open string, vs []Value) string {
	var b strings.Builder
	b.WriteString(open)
	for _, v := range vs {
		b.WriteString(s.valKey(v))
		b.WriteByte(',')
	}
	b.WriteByte(')')
	return b.String()
}

func (s *State) ropeKey(r Rope) string {
	var b strings.Builder
	for _, p := range r {
		fmt.Fprintf(&b, "|%d", p.K)
		switch p.K {
		case pElems, pRune:
			b.WriteString(s.valsKey("", p.V))
		case pSub:
			fmt.Fprintf(&b, ":%d:%s:%s:%v", p.Seq.ID, p.Lo.Key(), p.Hi.Key(), p.U8)
		case pHom:
			fmt.Fprintf(&b, ":%s:%d:%s:%s:%v", p.Hom.Name, p.Seq.ID, p.Lo.Key(), p.Hi.Key(), p.U8)
		case pUnk:
			fmt.Fprintf(&b, ":%s", p.Ln.Key())
		}
	}
	return b.String()
}

// splitIn partitions by the value of l being in set.
func (s *State) splitIn(l Lin, set ISet) (yes, no *State) {
	if l.IsConst() {
		if set.Has(l.C) {
			return s, nil
		}
		return nil, s
	}
	tf, ok := s.tab(l)
	if !ok {
		if tfs, ok2 := s.tabSmall(l); ok2 {
			tf, ok = tfs[0], true
		}
	}
	if ok && (tf.small || tf.affine && (tf.k == 1 || tf.k == -1)) {
		rs := s.rootSet(tf.root)
		var y, n ISet
		if tf.affine && (tf.k == 1 || tf.k == -1) {
			// root = (x - C) / k for x in set
			var want ISet
			for _, v := range set {
				a, b := satAdd(v.Lo, -l.C), satAdd(v.Hi, -l.C)
				if tf.k < 0 {
					a, b = -b, -a
				}
				want = append(want, Iv{a, b})
			}
			want = normISet(want)
			y = rs.Intersect(want)
			n = rs.Minus(want)
		} else {
			y, n = rs.Filter(func(v int64) bool { return set.Has(tf.f(v)) })
		}
		if n.Empty() {
			return s, nil
		}
		if y.Empty() {
			return nil, s
		}
		t := s.fork()
		s.iv[tf.root] = y
		t.iv[tf.root] = n
		return s, t
	}
	// Not a finite function of one root: interval by interval.
	if len(set) == 1 {
		base := s.fork()
		y1, n1 := s.split(Cond{CGe, l.AddC(-set[0].Lo)})
		if y1 == nil {
			return nil, n1
		}
		y2, n2 := y1.split(Cond{CGe, l.Neg().AddC(set[0].Hi)})
		if n1 == nil {
			return y2, n2
		}
		if n2 == nil {
			return y2, n1
		}
		// Two no-cases: keep the weaker common state.
		if y2 == nil {
			return nil, base
		}
		return y2, base
	}
	no = s.fork()
	return s, no
}

// mapInt is f(l), l being a finite function of small roots.
func (s *State) mapInt(name string, l Lin, f func(int64) int64) Lin {
	if l.IsConst() {
		return konst(f(l.C))
	}
	tfs, ok := s.tabSmall(l)
	if !ok {
		s.e.nfresh++
		return symLin(s.e.newSym(fmt.Sprintf("%s#%d", name, s.e.nfresh), ivSet(negInf, posInf)))
	}
	g := tfs[0].f
	nm := name + "(" + s.linStr(l) + ")"
	if len(nm) > 60 {
		nm = name + "(..)"
	}
	return s.derived(nm, tfs[0].root, func(v int64) int64 { return f(g(v)) })
}

// mapInt2 is f(a, b).
func (s *State) mapInt2(name string, a, b Lin, f func(a, b int64) int64) (Lin, bool) {
	if a.IsConst() && b.IsConst() {
		return konst(f(a.C, b.C)), true
	}
	tfs, ok := s.tabSmall(a, b)
	if !ok {
		return Lin{}, false
	}
	g, h := tfs[0].f, tfs[1].f
	return s.derived(name, tfs[0].root, func(v int64) int64 { return f(g(v), h(v)) }), true
}

// ---- slices and their content ----

type contentRes struct {
	S    *State
	R    Rope
	L, T Rope // what precedes and follows
}

// content is the window of a slice.
func (e *Engine) content(s *State, v VSlice) []contentRes {
	if v.O == 0 {
		return []contentRes{{S: s}}
	}
	var out []contentRes
	for _, c := range e.cutRope(s, s.obj(v.O).rope, v.Off) {
		if !c.OK {
			out = append(out, contentRes{S: c.S, R: Rope{{K: pUnk, Ln: v.Len}}})
			continue
		}
		for _, d := range e.cutRope(c.S, c.R, v.Len) {
			if !d.OK {
				out = append(out, contentRes{S: d.S, R: Rope{{K: pUnk, Ln: v.Len}}})
				continue
			}
			out = append(out, contentRes{d.S, trim(d.S, d.L), c.L, d.R})
		}
	}
	return out
}

// trim drops empty pieces.
func trim(s *State, r Rope) Rope {
	var out Rope
	for _, p := range r {
		if p.Ln.IsConst() && p.Ln.C == 0 {
			continue
		}
		if !p.Ln.IsConst() && s.entailsEq(p.Ln, Lin{}) {
			continue
		}
		out = out.push(p.unfold(s))
	}
	return out
}

// writeRange replaces [off, off+len(new)) of an array object.
func (e *Engine) writeRange(s *State, o ObjID, off Lin, new Rope, site ssa.Instruction) []*State {
	n := new.Len()
	if s.entailsEq(n, Lin{}) {
		return []*State{s}
	}
	e.wrote(s, o, off, site)
	var out []*State
	for _, c := range e.cutRope(s, s.obj(o).rope, off) {
		if !c.OK {
			e.clobber(c.S, o)
			out = append(out, c.S)
			continue
		}
		for _, d := range e.cutRope(c.S, c.R, n) {
			t := d.S
			if !d.OK {
				e.clobber(t, o)
			} else {
				x := t.mut(o)
				x.rope = trim(t, concat(c.L, new, d.R))
			}
			e.clobberAliases(t, o, off, n)
			out = append(out, t)
		}
	}
	return out
}

// wrote records a write to an object.
func (e *Engine) wrote(s *State, o ObjID, off Lin, site ssa.Instruction) {
	x := s.obj(o)
	if x.origin&^origFresh != 0 {
		e.log.events = append(e.log.events, Event{Kind: "write", Site: site, Origin: x.origin, Msg: x.name})
	}
	if e.onWrite != nil {
		e.onWrite(s, o, site)
	}
	// Memory that may be shared through an alias is written too.
	for _, a := range x.alias {
		y := s.obj(a.O)
		if y != nil && y.origin&^origFresh != 0 && y.origin&^x.origin != 0 {
			e.log.events = append(e.log.events, Event{Kind: "write", Site: site, Origin: y.origin, Msg: y.name})
		}
	}
}

// clobber forgets the content of an array object.
func (e *Engine) clobber(s *State, o ObjID) {
	x := s.mut(o)
	x.rope = Rope{{K: pUnk, Ln: x.rope.Len()}}
}

// clobberAliases forgets what objects that may share memory with [off,
// off+n) of o hold there.
func (e *Engine) clobberAliases(s *State, o ObjID, off, n Lin) {
	hit := func(p ObjID, d Lin, known bool) {
		x := s.obj(p)
		if x == nil || x.kind != oArr {
			return
		}
		if !known {
			e.clobber(s, p)
			return
		}
		e.weakUnk(s, p, off.Add(d), n)
	}
	for _, a := range s.obj(o).alias {
		hit(a.O, a.D, a.Known)
	}
	for _, p := range s.objIDs() {
		if p == o {
			continue
		}
		for _, a := range s.obj(p).alias {
			if a.O == o {
				hit(p, a.D.Neg(), a.Known)
			}
		}
	}
}

// weakUnk makes [off, off+n) of o unknown, without splitting the state.
func (e *Engine) weakUnk(s *State, o ObjID, off, n Lin) {
	x := s.obj(o)
	total := x.rope.Len()
	if s.entails(off.Sub(total)) || s.entails(off.Add(n).Neg()) {
		return // does not overlap
	}
	lo, hi := 0, len(x.rope)
	cum := konst(0)
	for i, p := range x.rope {
		end := cum.Add(p.Ln)
		if s.entails(off.Sub(end)) {
			lo = i + 1
		}
		if hi == len(x.rope) && s.entails(cum.Sub(off.Add(n))) {
			hi = i
		}
		cum = end
	}
	if lo >= hi {
		return
	}
	same := true
	for _, p := range x.rope[lo:hi] {
		if p.K != pUnk {
			same = false
		}
	}
	if same {
		return
	}
	x = s.mut(o)
	var out Rope
	for i, p := range x.rope {
		if i < lo || i >= hi {
			out = out.push(p)
			continue
		}
		// Keep an unaffected part of a piece where it can be cut off.
		out = out.push(Piece{K: pUnk, Ln: p.Ln})
	}
	x.rope = out
}

// objIDs lists the state's own objects in order.
func (s *State) objIDs() []ObjID {
	out := make([]ObjID, 0, len(s.heap))
	for o := range s.heap {
		out = append(out, o)
	}
	sortIDs(out)
	return out
}

func sortIDs(a []ObjID) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func utf8Bytes(v int64) []byte {
	if v < 0 || v > 0x10FFFF {
		v = 0xFFFD
	}
	return []byte(string(rune(v)))
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func lin(v Value) (Lin, bool) {
	i, ok := v.(VInt)
	return i.L, ok
}

// eval evaluates a value-producing instruction.
func (e *Engine) eval(s *State, v ssa.Value, in ssa.Instruction) []SV {
	switch v := v.(type) {
	case *ssa.Alloc:
		return one(s, e.allocType(s, v.Type().Underlying().(*types.Pointer).Elem(), v.Comment))
	case *ssa.BinOp:
		return e.binop(s, v)
	case *ssa.UnOp:
		return e.unop(s, v)
	case *ssa.ChangeType:
		return one(s, s.val(v.X))
	case *ssa.ChangeInterface:
		return one(s, s.val(v.X))
	case *ssa.MakeInterface:
		x := s.val(v.X)
		return one(s, VIface{v.X.Type(), x})
	case *ssa.Convert:
		return e.convert(s, v)
	case *ssa.Extract:
		tu, ok := s.val(v.Tuple).(VTuple)
		if !ok {
			return one(s, VUnk{"extract of " + s.valStr(s.val(v.Tuple))})
		}
		return one(s, tu[v.Index])
	case *ssa.Field:
		st, ok := s.val(v.X).(VStruct)
		if !ok {
			return one(s, VUnk{"field"})
		}
		return one(s, st.F[v.Field])
	case *ssa.FieldAddr:
		p, ok := s.val(v.X).(VPtr)
		if !ok {
			return e.nilDeref(s, in, s.val(v.X))
		}
		np := VPtr{O: p.O, Idx: p.Idx, Path: append(append([]int{}, p.Path...), v.Field)}
		if x := s.obj(p.O); x != nil && x.kind == oCell {
			if em, ok := project(x.val, np.Path).(VEmb); ok {
				return one(s, VPtr{O: em.O})
			}
		}
		return one(s, np)
	case *ssa.IndexAddr:
		return e.indexAddr(s, v)
	case *ssa.Index:
		return e.index(s, v)
	case *ssa.Lookup:
		return e.lookup(s, v)
	case *ssa.MakeMap:
		return one(s, VMap{s.alloc(&Obj{kind: oMap, m: &MapObj{ints: map[int64]Value{}, strs: map[string]Value{}}})})
	case *ssa.MakeSlice:
		return e.makeSlice(s, v)
	case *ssa.MakeClosure:
		f := VFunc{F: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.Free = append(f.Free, s.val(b))
		}
		return one(s, f)
	case *ssa.Slice:
		return e.slice(s, v)
	case *ssa.TypeAssert:
		return e.typeAssert(s, v)
	case *ssa.Range:
		return e.rangeOver(s, v)
	case *ssa.Next:
		return e.next(s, v)
	case *ssa.Call:
		return e.callInstr(s, v)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.Select, *ssa.MakeChan:
		e.undecided(in, "%T", v)
		return nil
	}
	e.undecided(in, "instruction %T", v)
	return nil
}

func (e *Engine) nilDeref(s *State, in ssa.Instruction, v Value) []SV {
	if _, ok := v.(VNil); ok {
		e.log.obls[e.siteKey(in)+" nil"] = false
		e.log.findings = append(e.log.findings, Finding{Kind: "panic", Site: in, Fn: in.Parent(), Msg: "nil dereference when " + s.describe()})
		return nil
	}
	e.undecided(in, "access through %s", s.valStr(v))
	return nil
}

// allocType allocates a zeroed object of a type.
func (e *Engine) allocType(s *State, t types.Type, name string) VPtr {
	if a, ok := t.Underlying().(*types.Array); ok {
		return VPtr{O: s.alloc(&Obj{kind: oArr, rope: zeroRope(a), name: name})}
	}
	return VPtr{O: s.alloc(&Obj{kind: oCell, val: e.toMem(s, zeroOf(t)), name: name})}
}

// toMem gives arrays within structs an object of their own.
func (e *Engine) toMem(s *State, v Value) Value {
	switch v := v.(type) {
	case VArr:
		return VEmb{s.alloc(&Obj{kind: oArr, rope: v.R})}
	case VStruct:
		out := VStruct{make([]Value, len(v.F))}
		for i, f := range v.F {
			out.F[i] = e.toMem(s, f)
		}
		return out
	}
	return v
}

func (e *Engine) fromMem(s *State, v Value) Value {
	switch v := v.(type) {
	case VEmb:
		return VArr{s.obj(v.O).rope}
	case VStruct:
		for _, f := range v.F {
			switch f.(type) {
			case VEmb, VStruct:
				out := VStruct{make([]Value, len(v.F))}
				for i, f := range v.F {
					out.F[i] = e.fromMem(s, f)
				}
				return out
			}
		}
	}
	return v
}

func (e *Engine) load(s *State, p VPtr, t types.Type, in ssa.Instruction) []SV {
	x := s.obj(p.O)
	switch {
	case x.kind == oCell:
		return one(s, e.fromMem(s, project(x.val, p.Path)))
	case x.kind == oArr && p.Idx == nil:
		return one(s, VArr{x.rope})
	case x.kind == oArr:
		return e.readRope(s, x.rope, *p.Idx, p.Path, t, in)
	}
	e.undecided(in, "load from object")
	return nil
}

func setPath(v Value, path []int, x Value) Value {
	if len(path) == 0 {
		return x
	}
	st, ok := v.(VStruct)
	if !ok {
		return VUnk{"field of non-struct"}
	}
	out := VStruct{append([]Value{}, st.F...)}
	out.F[path[0]] = setPath(out.F[path[0]], path[1:], x)
	return out
}

func (e *Engine) store(s *State, in *ssa.Store, addr, v Value) []*State {
	p, ok := addr.(VPtr)
	if !ok {
		e.nilDeref(s, in, addr)
		return nil
	}
	x := s.obj(p.O)
	if x.kind == oCell {
		e.wrote(s, p.O, Lin{}, in)
		y := s.mut(p.O)
		old := project(y.val, p.Path)
		y.val = setPath(y.val, p.Path, e.memAssign(s, old, v))
		return []*State{s}
	}
	if p.Idx == nil {
		a, ok := v.(VArr)
		if !ok {
			e.undecided(in, "store of %s", s.valStr(v))
			return nil
		}
		e.wrote(s, p.O, Lin{}, in)
		s.mut(p.O).rope = a.R
		e.clobberAliases(s, p.O, konst(0), a.R.Len())
		return []*State{s}
	}
	if e.initing && p.Idx.IsConst() && len(x.rope) == 1 && x.rope[0].K == pElems {
		y := s.mut(p.O)
		i := p.Idx.C
		y.rope[0].V[i] = setPath(y.rope[0].V[i], p.Path, v)
		return []*State{s}
	}
	if len(p.Path) == 0 {
		return e.writeRange(s, p.O, *p.Idx, Rope{elems(v)}, in)
	}
	var out []*State
	for _, r := range e.readRope(s, x.rope, *p.Idx, nil, in.Val.Type(), in) {
		nv := setPath(r.V, p.Path, v)
		out = append(out, e.writeRange(r.S, p.O, *p.Idx, Rope{elems(nv)}, in)...)
	}
	return out
}

// memAssign stores v over old, keeping embedded arrays' objects.
func (e *Engine) memAssign(s *State, old, v Value) Value {
	if em, ok := old.(VEmb); ok {
		if a, ok := v.(VArr); ok {
			s.mut(em.O).rope = a.R
			e.clobberAliases(s, em.O, konst(0), a.R.Len())
			return em
		}
	}
	if os, ok := old.(VStruct); ok {
		if ns, ok := v.(VStruct); ok && len(os.F) == len(ns.F) {
			out := VStruct{make([]Value, len(ns.F))}
			for i := range ns.F {
				out.F[i] = e.memAssign(s, os.F[i], ns.F[i])
			}
			return out
		}
	}
	return e.toMem(s, v)
}

// ---- integers ----

// wrap reduces l to the range of an integer type.
func (e *Engine) wrap(s *State, l Lin, t types.Type) []SV {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return one(s, VUnk{"wrap to " + t.String()})
	}
	dom := typeDom(b)
	if dom == nil {
		return one(s, VUnk{"wrap to " + t.String()})
	}
	dlo, dhi := dom.Hull()
	lo, hi := s.hull(l)
	if lo >= dlo && hi <= dhi {
		return one(s, VInt{l})
	}
	if dlo <= negInf {
		return one(s, VInt{l}) // 64-bit overflow: excluded by assumption
	}
	if l.IsConst() {
		return one(s, VInt{konst(wrapConst(l.C, dlo, dhi))})
	}
	if dhi < posInf {
		if _, ok := s.tabSmall(l); ok {
			return one(s, VInt{s.mapInt(b.Name(), l, func(x int64) int64 { return wrapConst(x, dlo, dhi) })})
		}
		m := dhi - dlo + 1
		if lo > negInf && hi < posInf && (hi-lo)/m <= 4 {
			var out []SV
			rest := s
			for w := floorDiv(lo-dlo, m); w <= floorDiv(hi-dlo, m) && rest != nil; w++ {
				y, n := rest.split(Cond{CGe, l.Neg().AddC(dhi + w*m)})
				rest = n
				if y != nil {
					out = append(out, SV{y, VInt{l.AddC(-w * m)}})
				}
			}
			return out
		}
	}
	if s.entails(l.AddC(-dlo)) && s.entails(l.Neg().AddC(dhi)) {
		return one(s, VInt{l})
	}
	y, n := s.splitIn(l, dom)
	var out []SV
	if y != nil {
		out = append(out, SV{y, VInt{l}})
	}
	if n != nil {
		e.nfresh++
		x := e.newSym(fmt.Sprintf("%s(..)#%d", b.Name(), e.nfresh), dom)
		out = append(out, SV{n, VInt{symLin(x)}})
	}
	return out
}

func wrapConst(x, lo, hi int64) int64 {
	if hi >= posInf || lo <= negInf {
		return x
	}
	m := hi - lo + 1
	return x - m*floorDiv(x-lo, m)
}

func (e *Engine) binop(s *State, v *ssa.BinOp) []SV {
	x, y := s.val(v.X), s.val(v.Y)
	switch v.Op {
	case token.EQL, token.NEQ:
		outs := e.equal(s, x, y, v)
		if v.Op == token.NEQ {
			for i := range outs {
				if b, ok := outs[i].V.(VBool); ok {
					outs[i].V = VBool{b.C.Not()}
				}
			}
		}
		return outs
	}
	if isString(v.X.Type()) {
		a, ok1 := x.(VStr)
		b, ok2 := y.(VStr)
		if !ok1 || !ok2 {
			return one(s, VUnk{"string operands"})
		}
		if v.Op == token.ADD {
			return one(s, VStr{concat(a.R, b.R)})
		}
		ac, o1 := a.R.constString()
		bc, o2 := b.R.constString()
		if o1 && o2 {
			switch v.Op {
			case token.LSS:
				return one(s, boolVal(ac < bc))
			case token.LEQ:
				return one(s, boolVal(ac <= bc))
			case token.GTR:
				return one(s, boolVal(ac > bc))
			case token.GEQ:
				return one(s, boolVal(ac >= bc))
			}
		}
		return one(s, e.anyOf(s, v.Type(), "strcmp"))
	}
	a, ok1 := lin(x)
	b, ok2 := lin(y)
	if !ok1 || !ok2 {
		return one(s, VUnk{fmt.Sprintf("%s of %s and %s", v.Op, s.valStr(x), s.valStr(y))})
	}
	switch v.Op {
	case token.LSS:
		return one(s, VBool{Cond{CGe, b.Sub(a).AddC(-1)}})
	case token.LEQ:
		return one(s, VBool{Cond{CGe, b.Sub(a)}})
	case token.GTR:
		return one(s, VBool{Cond{CGe, a.Sub(b).AddC(-1)}})
	case token.GEQ:
		return one(s, VBool{Cond{CGe, a.Sub(b)}})
	}
	return e.arith(s, v.Op, a, b, v.Type(), v)
}

func (e *Engine) arith(s *State, op token.Token, a, b Lin, t types.Type, site ssa.Instruction) []SV {
	switch op {
	case token.ADD:
		return e.wrap(s, a.Add(b), t)
	case token.SUB:
		return e.wrap(s, a.Sub(b), t)
	case token.MUL:
		if b.IsConst() {
			return e.wrap(s, a.Mul(b.C), t)
		}
		if a.IsConst() {
			return e.wrap(s, b.Mul(a.C), t)
		}
		if l, ok := s.mapInt2("mul", a, b, func(x, y int64) int64 { return x * y }); ok {
			return e.wrap(s, l, t)
		}
		return one(s, e.anyOf(s, t, "mul"))
	case token.SHL:
		if b.IsConst() && b.C >= 0 && b.C < 63 {
			return e.wrap(s, a.Mul(1<<uint(b.C)), t)
		}
		if l, ok := s.mapInt2("shl", a, b, func(x, y int64) int64 {
			if y < 0 || y >= 63 {
				return 0
			}
			return x << uint(y)
		}); ok {
			return e.wrap(s, l, t)
		}
		return one(s, e.anyOf(s, t, "shl"))
	case token.QUO, token.REM:
		if b.IsConst() && b.C == 0 || !b.IsConst() {
			s = e.require(s, site, "nonzero divisor", Cond{CNe, b})
			if s == nil {
				return nil
			}
		}
		f := func(x, y int64) int64 {
			if y == 0 {
				return 0
			}
			if op == token.QUO {
				return x / y
			}
			return x % y
		}
		if l, ok := s.mapInt2(op.String(), a, b, f); ok {
			return e.wrap(s, l, t)
		}
		if b.IsConst() && b.C > 0 {
			if s.entails(a) {
				q := e.quotient(s, a, b.C)
				if op == token.QUO {
					return one(s, VInt{q})
				}
				return one(s, VInt{a.Sub(q.Mul(b.C))})
			}
			y, n := s.split(Cond{CGe, a})
			var out []SV
			if y != nil {
				out = append(out, e.arith(y, op, a, b, t, site)...)
			}
			if n != nil {
				// -(-a / b)
				q := e.quotient(n, a.Neg(), b.C).Neg()
				if op == token.QUO {
					out = append(out, SV{n, VInt{q}})
				} else {
					out = append(out, SV{n, VInt{a.Sub(q.Mul(b.C))}})
				}
			}
			return out
		}
		return one(s, e.anyOf(s, t, "quo"))
	case token.SHR:
		if l, ok := s.mapInt2("shr", a, b, func(x, y int64) int64 {
			if y < 0 || y >= 63 {
				if x < 0 {
					return -1
				}
				return 0
			}
			return x >> uint(y)
		}); ok {
			return one(s, VInt{l})
		}
		if b.IsConst() && b.C >= 0 && b.C < 62 {
			return one(s, VInt{e.quotient(s, a, 1<<uint(b.C))}) // floor
		}
		return one(s, e.anyOf(s, t, "shr"))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		f := func(x, y int64) int64 {
			switch op {
			case token.AND:
				return x & y
			case token.OR:
				return x | y
			case token.XOR:
				return x ^ y
			}
			return x &^ y
		}
		if l, ok := s.mapInt2(op.String(), a, b, f); ok {
			return e.wrap(s, l, t)
		}
		if op == token.AND {
			for _, p := range [][2]Lin{{a, b}, {b, a}} {
				if p[1].IsConst() && p[1].C >= 0 {
					m := p[1].C
					if m&(m+1) == 0 && s.entails(p[0]) && s.entails(p[0].Neg().AddC(m)) {
						return one(s, VInt{p[0]})
					}
					if m&(m+1) == 0 && s.entails(p[0]) {
						q := e.quotient(s, p[0], m+1)
						return one(s, VInt{p[0].Sub(q.Mul(m + 1))})
					}
					e.nfresh++
					return one(s, VInt{symLin(e.newSym(fmt.Sprintf("and#%d", e.nfresh), ivSet(0, m)))})
				}
			}
		}
		return one(s, e.anyOf(s, t, "bits"))
	}
	return one(s, VUnk{"operator " + op.String()})
}

// quotient is floor(a/k), with its bounds.
func (e *Engine) quotient(s *State, a Lin, k int64) Lin {
	if a.IsConst() {
		return konst(floorDiv(a.C, k))
	}
	key := fmt.Sprintf("quo|%s|%d", a.Key(), k)
	q, ok := e.lens[key]
	if !ok {
		e.nfresh++
		q = e.newSym(fmt.Sprintf("(%s)/%d", s.linStr(a), k), ivSet(negInf, posInf))
		e.lens[key] = q
	}
	lo, hi := s.hull(a)
	dlo, dhi := int64(negInf), int64(posInf)
	if lo > negInf {
		dlo = floorDiv(lo, k)
	}
	if hi < posInf {
		dhi = floorDiv(hi, k)
	}
	s.iv[q] = s.rootSet(q).Intersect(ivSet(dlo, dhi))
	l := symLin(q)
	s.addCons(a.Sub(l.Mul(k)))
	s.addCons(l.Mul(k).AddC(k - 1).Sub(a))
	return l
}

func (e *Engine) unop(s *State, v *ssa.UnOp) []SV {
	x := s.val(v.X)
	switch v.Op {
	case token.MUL:
		p, ok := x.(VPtr)
		if !ok {
			return e.nilDeref(s, v, x)
		}
		return e.load(s, p, v.Type(), v)
	case token.SUB:
		if l, ok := lin(x); ok {
			return e.wrap(s, l.Neg(), v.Type())
		}
	case token.XOR:
		if l, ok := lin(x); ok {
			return e.wrap(s, l.Neg().AddC(-1), v.Type())
		}
	case token.NOT:
		if b, ok := x.(VBool); ok {
			return one(s, VBool{b.C.Not()})
		}
	}
	e.undecided(v, "operator %s on %s", v.Op, s.valStr(x))
	return nil
}

// equal compares two values.
func (e *Engine) equal(s *State, x, y Value, site ssa.Instruction) []SV {
	switch a := x.(type) {
	case VInt:
		if b, ok := y.(VInt); ok {
			return one(s, VBool{Cond{CEq, a.L.Sub(b.L)}})
		}
	case VBool:
		if b, ok := y.(VBool); ok {
			if v, ok := a.C.ConstVal(); ok {
				if v {
					return one(s, b)
				}
				return one(s, VBool{b.C.Not()})
			}
			if v, ok := b.C.ConstVal(); ok {
				if v {
					return one(s, a)
				}
				return one(s, VBool{a.C.Not()})
			}
			t, f := s.split(a.C)
			var out []SV
			if t != nil {
				out = append(out, SV{t, b})
			}
			if f != nil {
				out = append(out, SV{f, VBool{b.C.Not()}})
			}
			return out
		}
	case VStr:
		if b, ok := y.(VStr); ok {
			return one(s, e.strEqual(s, a.R, b.R))
		}
	case VStruct:
		if b, ok := y.(VStruct); ok && len(a.F) == len(b.F) {
			cur := []*State{s}
			var out []SV
			for i := range a.F {
				var next []*State
				for _, c := range cur {
					for _, r := range e.equal(c, a.F[i], b.F[i], site) {
						cb, ok := r.V.(VBool)
						if !ok {
							return one(s, VUnk{"struct comparison"})
						}
						t, f := r.S.split(cb.C)
						if f != nil {
							out = append(out, SV{f, boolVal(false)})
						}
						if t != nil {
							next = append(next, t)
						}
					}
				}
				cur = next
			}
			for _, c := range cur {
				out = append(out, SV{c, boolVal(true)})
			}
			return out
		}
	}
	return one(s, e.sameRef(s, x, y))
}

// sameRef compares pointers, interfaces, and nil.
func (e *Engine) sameRef(s *State, x, y Value) Value {
	if isNil(y) {
		x, y = y, x
	}
	if isNil(x) {
		switch b := y.(type) {
		case VNil:
			return boolVal(true)
		case VSlice:
			if b.O != 0 && e.stream != nil {
				// Empty slices of a history may stand for nil.
				end := s.obj(b.O).rope.Len()
				if b.Max != nil {
					end = *b.Max
				}
				if !s.entails(end.Sub(b.Off).AddC(-1)) {
					return e.anyOf(s, types.Typ[types.Bool], "is nil")
				}
			}
			return boolVal(b.O == 0)
		case VPtr, VErr, VIface, VMap, VFunc, VExt:
			return boolVal(false)
		}
		return VUnk{"nil comparison"}
	}
	if i, ok := x.(VIface); ok {
		if j, ok := y.(VIface); ok {
			if !types.Identical(i.T, j.T) {
				return boolVal(false)
			}
			return e.sameRef(s, i.V, j.V)
		}
		if _, ok := y.(VErr); ok {
			return boolVal(false)
		}
	}
	switch a := x.(type) {
	case VErr:
		if b, ok := y.(VErr); ok {
			if a.ID == b.ID {
				return boolVal(true)
			}
			if a.ID == srcErr || b.ID == srcErr || a.ID == sinkErr || b.ID == sinkErr {
				o := b.ID
				if a.ID != srcErr && a.ID != sinkErr {
					o = a.ID
				}
				if o == "io.EOF" {
					return boolVal(false) // the cases are kept apart
				}
				return VBool{Cond{CNe, symLin(e.atom("srcerr==" + o))}}
			}
			return boolVal(false)
		}
		if _, ok := y.(VIface); ok {
			return boolVal(false)
		}
	case VPtr:
		if b, ok := y.(VPtr); ok {
			if a.O != b.O {
				return boolVal(false)
			}
			if a.Idx == nil && b.Idx == nil && fmt.Sprint(a.Path) == fmt.Sprint(b.Path) {
				return boolVal(true)
			}
		}
	}
	return VUnk{"comparison"}
}

const (
	srcErr  = "error of the source"
	sinkErr = "error of the sink"
)

func isNil(v Value) bool {
	switch v := v.(type) {
	case VNil:
		return true
	case VSlice:
		return v.O == 0
	}
	return false
}

// atom is a truth value of its own, identified by its key.
func (e *Engine) atom(key string) Sym {
	if x, ok := e.strAtoms[key]; ok {
		return x
	}
	x := e.newSym(key, ivSet(0, 1))
	e.strAtoms[key] = x
	return x
}

func (e *Engine) strEqual(s *State, a, b Rope) Value {
	ac, aok := a.constString()
	bc, bok := b.constString()
	if aok && bok {
		return boolVal(ac == bc)
	}
	if bok {
		a, b, ac, bc, aok, bok = b, a, bc, ac, bok, aok
	}
	if aok && ac == "" {
		return VBool{Cond{CEq, b.Len()}}
	}
	if s.ropeEq(a, b) {
		return boolVal(true)
	}
	if aok {
		// Elements known to differ, or all known to be equal?
		if len(b) == 1 && b[0].K == pElems {
			if len(b[0].V) != len(ac) {
				return boolVal(false)
			}
		}
		if d := b.Len().AddC(-int64(len(ac))); s.entails(d.AddC(-1)) || s.entails(d.Neg().AddC(-1)) {
			return boolVal(false)
		}
		return VBool{Cond{CNe, symLin(e.atom(s.ropeStr(b) + "==" + fmt.Sprintf("%q", ac)))}}
	}
	return VBool{Cond{CNe, symLin(e.atom(s.ropeStr(a) + "==" + s.ropeStr(b)))}}
}

// ---- conversions ----

func (e *Engine) convert(s *State, v *ssa.Convert) []SV {
	x := s.val(v.X)
	from, to := v.X.Type().Underlying(), v.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if l, ok := lin(x); ok {
			return e.wrap(s, l, v.Type())
		}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if l, ok := lin(x); ok {
			var out []SV
			for _, r := range e.runePiece(s, l) {
				out = append(out, SV{r.S, VStr{r.R}})
			}
			return out
		}
	case fok && fb.Info()&types.IsString != 0 && tok && tb.Info()&types.IsString != 0:
		return one(s, x)
	case fok && fb.Info()&types.IsString != 0:
		str, ok := x.(VStr)
		sl, ok2 := to.(*types.Slice)
		if ok && ok2 {
			el := sl.Elem().Underlying().(*types.Basic)
			r := str.R
			if el.Kind() != types.Uint8 {
				r = e.runesOf(s, str.R)
			}
			n := r.Len()
			o := s.alloc(&Obj{kind: oArr, rope: append(append(Rope{}, r...), Piece{K: pUnk, Ln: symLin(e.freshLen("cap"))})})
			return one(s, VSlice{O: o, Len: n})
		}
	case tok && tb.Info()&types.IsString != 0:
		sl, ok := x.(VSlice)
		ft, ok2 := from.(*types.Slice)
		if ok && ok2 {
			el := ft.Elem().Underlying().(*types.Basic)
			var out []SV
			for _, c := range e.content(s, sl) {
				r := c.R
				if el.Kind() != types.Uint8 {
					for _, q := range e.toUTF8(c.S, r) {
						out = append(out, SV{q.S, VStr{q.R}})
					}
					continue
				}
				out = append(out, SV{c.S, VStr{r}})
			}
			return out
		}
	}
	e.undecided(v, "conversion of %s from %s to %s", s.valStr(x), v.X.Type(), v.Type())
	return nil
}

// runePiece is the UTF-8 form of a rune value.
func (e *Engine) runePiece(s *State, l Lin) []sRope {
	if l.IsConst() {
		return []sRope{{s, constRope(string(utf8Bytes(l.C)))}}
	}
	y, n := s.splitIn(l, ivSet(0, 0x7f))
	var out []sRope
	if y != nil {
		out = append(out, sRope{y, Rope{elems(VInt{l})}})
	}
	if n != nil {
		out = append(out, sRope{n, Rope{{K: pRune, V: []Value{VInt{l}}, Ln: e.runeLen(n, l)}}})
	}
	return out
}

// runeLen is the length of the UTF-8 form of a rune value (3 if invalid).
func (e *Engine) runeLen(s *State, l Lin) Lin {
	if _, ok := s.tabSmall(l); ok {
		key := "rl|" + l.Key()
		r, _ := s.tab(l)
		key += fmt.Sprint("|", r.root)
		f := utf8Size
		lo, hi := int64(4), int64(1)
		s.values(l).Each(func(v int64) bool {
			n := f(v)
			if n < lo {
				lo = n
			}
			if n > hi {
				hi = n
			}
			return lo > 1 || hi < 4
		})
		if lo == hi {
			return konst(lo)
		}
		if x, ok := e.lens[key]; ok {
			return symLin(x)
		}
		m := s.mapInt("runelen", l, f)
		if len(m.T) == 1 {
			e.lens[key] = m.T[0].S
			e.syms[m.T[0].S].dom = ivSet(1, 4)
		}
		return m
	}
	key := "rlbig|" + l.Key()
	x, ok := e.lens[key]
	if !ok {
		x = e.newSym("runelen("+s.linStr(l)+")", ivSet(1, 4))
		e.lens[key] = x
	}
	return symLin(x)
}

// runesOf is the sequence of runes of a string.
func (e *Engine) runesOf(s *State, r Rope) Rope {
	if c, ok := r.constString(); ok {
		var vs []Value
		for _, x := range c {
			vs = append(vs, VInt{konst(int64(x))})
		}
		if vs == nil {
			return nil
		}
		return Rope{elems(vs...)}
	}
	r = trim(s, r)
	if len(r) == 0 {
		return nil
	}
	// Pieces that are the UTF-8 form of whole runes decode piece by piece.
	var out Rope
	for _, p := range r {
		switch {
		case p.K == pRune:
			l := p.V[0].(VInt).L
			if vs := s.values(l); vs.Subset(runeDom) {
				out = out.push(elems(VInt{l}))
				continue
			}
		case p.U8:
			q := p
			q.U8 = false
			q.Ln = p.Hi.Sub(p.Lo)
			out = out.push(q)
			continue
		case p.K == pElems:
			all := true
			for _, v := range p.V {
				l, ok := lin(v)
				if !ok || !s.values(l).Subset(ivSet(0, 0x7f)) {
					all = false
				}
			}
			if all {
				out = out.push(p)
				continue
			}
		}
		if len(r) == 1 && p.K == pSub {
			q := e.runeSeq(s, p)
			return Rope{sub(q, konst(0), q.Len)}
		}
		m := e.freshLen("runes")
		s.addCons(r.Len().Sub(symLin(m)))
		return Rope{{K: pUnk, Ln: symLin(m)}}
	}
	return out
}

// runeSeq is the sequence of runes in [Lo,Hi) of a byte sequence.
func (e *Engine) runeSeq(s *State, p Piece) *Seq {
	key := fmt.Sprintf("runes|%d|%s|%s", p.Seq.ID, p.Lo.Key(), p.Hi.Key())
	q, ok := e.named[key]
	if !ok {
		q = e.newSeq("runes("+p.Seq.Name+")", true)
		q.Len = symLin(e.newSym("len(runes("+p.Seq.Name+"))", ivSet(0, maxLen)))
		q.Of, q.OfLo, q.OfHi = p.Seq, p.Lo, p.Hi
		e.named[key] = q
	}
	n := p.Hi.Sub(p.Lo)
	s.addCons(n.Sub(q.Len))
	s.addCons(q.Len.Mul(4).Sub(n))
	return q
}

// toUTF8 is the UTF-8 form of a sequence of runes.
func (e *Engine) toUTF8(s *State, r Rope) []sRope {
	outs := []sRope{{s, nil}}
	for _, p := range r {
		var next []sRope
		for _, o := range outs {
			switch p.K {
			case pElems:
				cur := []sRope{o}
				for _, v := range p.V {
					l, ok := lin(v)
					if !ok {
						return []sRope{{s, Rope{{K: pUnk, Ln: symLin(e.freshLen("utf8"))}}}}
					}
					var nx []sRope
					for _, c := range cur {
						for _, x := range e.runePiece(c.S, l) {
							nx = append(nx, sRope{x.S, concat(c.R, x.R)})
						}
					}
					cur = nx
				}
				next = append(next, cur...)
			case pSub, pHom:
				q := p
				q.U8 = true
				q.Ln = e.u8Len(o.S, p)
				next = append(next, sRope{o.S, o.R.push(q)})
			default:
				next = append(next, sRope{o.S, o.R.push(Piece{K: pUnk, Ln: symLin(e.freshLen("utf8"))})})
			}
		}
		outs = next
	}
	return outs
}

// u8Len is the length of the UTF-8 form of a piece of runes.
func (e *Engine) u8Len(s *State, p Piece) Lin {
	h := ""
	if p.Hom != nil {
		h = p.Hom.Name
	}
	key := fmt.Sprintf("u8|%d|%s|%d|%s|%s", p.K, h, p.Seq.ID, p.Lo.Key(), p.Hi.Key())
	x, ok := e.lens[key]
	if !ok {
		x = e.newSym("utf8len("+p.Seq.Name+")", ivSet(0, maxLen))
		e.lens[key] = x
	}
	l := symLin(x)
	n := p.Hi.Sub(p.Lo)
	s.addCons(l.Sub(n))
	s.addCons(n.Mul(4).Sub(l))
	return l
}

// ---- indexing and slicing ----

func (e *Engine) indexAddr(s *State, v *ssa.IndexAddr) []SV {
	i, ok := lin(s.val(v.Index))
	if !ok {
		e.undecided(v, "index %s", s.valStr(s.val(v.Index)))
		return nil
	}
	switch x := s.val(v.X).(type) {
	case VSlice:
		s = e.inRange(s, v, i, x.Len)
		if s == nil {
			return nil
		}
		if x.O == 0 {
			return nil
		}
		idx := x.Off.Add(i)
		return one(s, VPtr{O: x.O, Idx: &idx})
	case VPtr:
		if x.Idx != nil {
			e.undecided(v, "array of arrays")
			return nil
		}
		a := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s = e.inRange(s, v, i, konst(a.Len()))
		if s == nil {
			return nil
		}
		return one(s, VPtr{O: x.O, Idx: &i})
	default:
		return e.nilDeref(s, v, s.val(v.X))
	}
}

// inRange is the obligation 0 <= i < n.
func (e *Engine) inRange(s *State, site ssa.Instruction, i, n Lin) *State {
	s = e.require(s, site, "index in range", Cond{CGe, i})
	if s == nil {
		return nil
	}
	return e.require(s, site, "index in range", Cond{CGe, n.Sub(i).AddC(-1)})
}

func (e *Engine) index(s *State, v *ssa.Index) []SV {
	i, ok := lin(s.val(v.Index))
	if !ok {
		e.undecided(v, "index")
		return nil
	}
	var r Rope
	switch x := s.val(v.X).(type) {
	case VArr:
		r = x.R
	case VStr:
		r = x.R
	default:
		e.undecided(v, "index of %s", s.valStr(x))
		return nil
	}
	s = e.inRange(s, v, i, r.Len())
	if s == nil {
		return nil
	}
	return e.readRope(s, r, i, nil, v.Type(), v)
}

func (e *Engine) capOf(s *State, x VSlice) Lin {
	if x.O == 0 {
		return Lin{}
	}
	if x.Max != nil {
		return x.Max.Sub(x.Off)
	}
	return s.obj(x.O).rope.Len().Sub(x.Off)
}

func (e *Engine) slice(s *State, v *ssa.Slice) []SV {
	opt := func(x ssa.Value, d Lin) (Lin, bool) {
		if x == nil {
			return d, true
		}
		return lin(s.val(x))
	}
	x := s.val(v.X)
	lo, ok := opt(v.Low, Lin{})
	if !ok {
		e.undecided(v, "slice bound")
		return nil
	}
	var base VSlice
	var n, c Lin
	switch x := x.(type) {
	case VStr:
		hi, ok := opt(v.High, x.R.Len())
		if !ok {
			e.undecided(v, "slice bound")
			return nil
		}
		for _, cd := range []Cond{{CGe, lo}, {CGe, hi.Sub(lo)}, {CGe, x.R.Len().Sub(hi)}} {
			if s = e.require(s, v, "slice bounds in range", cd); s == nil {
				return nil
			}
		}
		var out []SV
		for _, a := range e.cutRope(s, x.R, lo) {
			if !a.OK {
				out = append(out, SV{a.S, VStr{Rope{{K: pUnk, Ln: hi.Sub(lo)}}}})
				continue
			}
			for _, b := range e.cutRope(a.S, a.R, hi.Sub(lo)) {
				if !b.OK {
					out = append(out, SV{b.S, VStr{Rope{{K: pUnk, Ln: hi.Sub(lo)}}}})
					continue
				}
				out = append(out, SV{b.S, VStr{trim(b.S, b.L)}})
			}
		}
		return out
	case VSlice:
		base, n, c = x, x.Len, e.capOf(s, x)
	case VPtr:
		if x.Idx != nil || s.obj(x.O).kind != oArr {
			e.undecided(v, "slice of array %s", s.valStr(x))
			return nil
		}
		n = s.obj(x.O).rope.Len()
		c = n
		base = VSlice{O: x.O}
	default:
		return e.nilDeref(s, v, x)
	}
	hi, ok1 := opt(v.High, n)
	max, ok2 := opt(v.Max, c)
	if !ok1 || !ok2 {
		e.undecided(v, "slice bound")
		return nil
	}
	conds := []Cond{{CGe, lo}, {CGe, hi.Sub(lo)}}
	if v.Max != nil {
		conds = append(conds, Cond{CGe, max.Sub(hi)}, Cond{CGe, c.Sub(max)})
	} else if v.High != nil {
		conds = append(conds, Cond{CGe, c.Sub(hi)})
	}
	for _, cd := range conds {
		if s = e.require(s, v, "slice bounds in range", cd); s == nil {
			return nil
		}
	}
	if base.O == 0 {
		return one(s, VSlice{})
	}
	out := VSlice{O: base.O, Off: base.Off.Add(lo), Len: hi.Sub(lo), Max: base.Max}
	if v.Max != nil {
		m := base.Off.Add(max)
		out.Max = &m
	}
	return one(s, out)
}

func (e *Engine) makeSlice(s *State, v *ssa.MakeSlice) []SV {
	n, ok1 := lin(s.val(v.Len))
	c, ok2 := lin(s.val(v.Cap))
	if !ok1 || !ok2 {
		e.undecided(v, "make")
		return nil
	}
	for _, cd := range []Cond{{CGe, n}, {CGe, c.Sub(n)}} {
		if s = e.require(s, v, "make size in range", cd); s == nil {
			return nil
		}
	}
	el := v.Type().Underlying().(*types.Slice).Elem()
	var r Rope
	fill := func(n Lin) {
		if n.IsConst() && n.C <= 1<<16 {
			if n.C > 0 {
				vs := make([]Value, n.C)
				for i := range vs {
					vs[i] = zeroOf(el)
				}
				r = r.push(elems(vs...))
			}
			return
		}
		r = r.push(Piece{K: pUnk, Ln: n})
	}
	fill(n)
	fill(c.Sub(n))
	return one(s, VSlice{O: s.alloc(&Obj{kind: oArr, rope: r, name: "make"}), Len: n})
}

// ---- maps ----

func (e *Engine) lookup(s *State, v *ssa.Lookup) []SV {
	x := s.val(v.X)
	if str, ok := x.(VStr); ok {
		i, ok := lin(s.val(v.Index))
		if !ok {
			e.undecided(v, "index")
			return nil
		}
		s = e.inRange(s, v, i, str.R.Len())
		if s == nil {
			return nil
		}
		return e.readRope(s, str.R, i, nil, types.Typ[types.Uint8], v)
	}
	mt := v.X.Type().Underlying().(*types.Map)
	wrap := func(val Value, ok bool) Value {
		if v.CommaOk {
			return VTuple{val, boolVal(ok)}
		}
		return val
	}
	zero := zeroOf(mt.Elem())
	var m *MapObj
	switch x := x.(type) {
	case VNil:
		return one(s, wrap(zero, false))
	case VMap:
		m = s.obj(x.O).m
	default:
		e.undecided(v, "lookup in %s", s.valStr(x))
		return nil
	}
	if m.top {
		var out []SV
		t := s.fork()
		out = append(out, SV{s, wrap(e.anyOf(s, mt.Elem(), "map element"), true)})
		return append(out, SV{t, wrap(zero, false)})
	}
	switch k := s.val(v.Index).(type) {
	case VInt:
		if k.L.IsConst() {
			if x, ok := m.ints[k.L.C]; ok {
				return one(s, wrap(x, true))
			}
			return one(s, wrap(zero, false))
		}
		keys := make([]int64, 0, len(m.ints))
		groups := map[string][]int64{}
		vals := map[string]Value{}
		allInt := true
		for i, x := range m.ints {
			keys = append(keys, i)
			if y, ok := x.(VInt); !ok || !y.L.IsConst() {
				allInt = false
			}
		}
		hit, miss := s.splitIn(k.L, setOf(keys))
		var out []SV
		if hit != nil {
			if allInt {
				if _, ok := hit.tabSmall(k.L); ok {
					l := hit.mapInt("map", k.L, func(i int64) int64 {
						if x, ok := m.ints[i]; ok {
							return x.(VInt).L.C
						}
						return 0
					})
					out = append(out, SV{hit, wrap(VInt{l}, true)})
				} else {
					out = append(out, SV{hit, wrap(e.anyOf(hit, mt.Elem(), "map element"), true)})
				}
			} else {
				for i, x := range m.ints {
					key := s.valKey(x)
					groups[key] = append(groups[key], i)
					vals[key] = x
				}
				var order []string
				for key := range groups {
					order = append(order, key)
				}
				sortStrings(order)
				rest := hit
				for _, key := range order {
					if rest == nil {
						break
					}
					y, n := rest.splitIn(k.L, setOf(groups[key]))
					rest = n
					if y != nil {
						out = append(out, SV{y, wrap(vals[key], true)})
					}
				}
			}
		}
		if miss != nil {
			out = append(out, SV{miss, wrap(zero, false)})
		}
		return out
	case VStr:
		if c, ok := k.R.constString(); ok {
			if x, ok := m.strs[c]; ok {
				return one(s, wrap(x, true))
			}
			return one(s, wrap(zero, false))
		}
		var out []SV
		rest := s
		var order []string
		for key := range m.strs {
			order = append(order, key)
		}
		sortStrings(order)
		for _, key := range order {
			if rest == nil {
				break
			}
			b, ok := e.strEqual(rest, k.R, constRope(key)).(VBool)
			if !ok {
				break
			}
			y, n := rest.split(b.C)
			rest = n
			if y != nil {
				out = append(out, SV{y, wrap(m.strs[key], true)})
			}
		}
		if rest != nil {
			out = append(out, SV{rest, wrap(zero, false)})
		}
		return out
	}
	e.undecided(v, "lookup of key %s", s.valStr(s.val(v.Index)))
	return nil
}

func (e *Engine) mapUpdate(s *State, in *ssa.MapUpdate) bool {
	m, ok := s.val(in.Map).(VMap)
	if !ok {
		e.nilDeref(s, in, s.val(in.Map))
		return false
	}
	e.wrote(s, m.O, Lin{}, in)
	x := s.mut(m.O)
	v := s.val(in.Value)
	switch k := s.val(in.Key).(type) {
	case VInt:
		if k.L.IsConst() {
			x.m.ints[k.L.C] = v
			return true
		}
	case VStr:
		if c, ok := k.R.constString(); ok {
			x.m.strs[c] = v
			return true
		}
	}
	x.m.top = true
	return true
}

// ---- interfaces ----

func (e *Engine) typeAssert(s *State, v *ssa.TypeAssert) []SV {
	wrap := func(x Value, ok bool) Value {
		if v.CommaOk {
			return VTuple{x, boolVal(ok)}
		}
		return x
	}
	zero := zeroOf(v.AssertedType)
	fail := func(s *State) []SV {
		if v.CommaOk {
			return one(s, wrap(zero, false))
		}
		e.log.obls[e.siteKey(v)+" type assertion"] = false
		e.log.findings = append(e.log.findings, Finding{Kind: "panic", Site: v, Fn: v.Parent(), Msg: "type assertion fails when " + s.describe()})
		return nil
	}
	switch x := s.val(v.X).(type) {
	case VNil:
		return fail(s)
	case VIface:
		if types.IsInterface(v.AssertedType) {
			if types.Implements(x.T, v.AssertedType.Underlying().(*types.Interface)) {
				return one(s, wrap(x, true))
			}
			return fail(s)
		}
		if types.Identical(x.T, v.AssertedType) {
			return one(s, wrap(x.V, true))
		}
		return fail(s)
	case VErr, VExt:
		// The dynamic type is unknown: it may have further methods.
		if !types.IsInterface(v.AssertedType) {
			return fail(s)
		}
		if !v.CommaOk {
			return fail(s)
		}
		e.nondet++
		t := s.fork()
		return []SV{{s, wrap(x, true)}, {t, wrap(VNil{}, false)}}
	}
	e.undecided(v, "type assertion on %s", s.valStr(s.val(v.X)))
	return nil
}

// ---- range ----

func (e *Engine) rangeOver(s *State, v *ssa.Range) []SV {
	switch x := s.val(v.X).(type) {
	case VStr:
		r := e.runesOf(s, x.R)
		o := s.alloc(&Obj{kind: oIter, rope: r, val: VInt{}, name: "range"})
		y := s.mut(o)
		if c, ok := x.R.constString(); ok {
			y.name = "const:" + c
		}
		return one(s, VIter{o})
	case VMap:
		m := s.obj(x.O).m
		if m.top {
			e.undecided(v, "range over a map of unknown content")
			return nil
		}
		var r Rope
		var vs []Value
		var ks []int64
		for k := range m.ints {
			ks = append(ks, k)
		}
		sortInts(ks)
		for _, k := range ks {
			vs = append(vs, VTuple{VInt{konst(k)}, m.ints[k]})
		}
		var ss []string
		for k := range m.strs {
			ss = append(ss, k)
		}
		sortStrings(ss)
		for _, k := range ss {
			vs = append(vs, VTuple{VStr{constRope(k)}, m.strs[k]})
		}
		if e.reverse {
			for i, j := 0, len(vs)-1; i < j; i, j = i+1, j-1 {
				vs[i], vs[j] = vs[j], vs[i]
			}
		}
		if len(vs) > 1 && !e.initing {
			e.mapRanges++
		}
		if vs != nil {
			r = Rope{elems(vs...)}
		}
		return one(s, VIter{s.alloc(&Obj{kind: oIter, rope: r, val: VInt{}, name: "map"})})
	case VNil:
		return one(s, VIter{s.alloc(&Obj{kind: oIter, val: VInt{}, name: "map"})})
	}
	e.undecided(v, "range over %s", s.valStr(s.val(v.X)))
	return nil
}

func (e *Engine) next(s *State, v *ssa.Next) []SV {
	it, ok := s.val(v.Iter).(VIter)
	if !ok {
		e.undecided(v, "range")
		return nil
	}
	x := s.obj(it.O)
	i := x.val.(VInt).L
	tt := v.Type().(*types.Tuple)
	done := func(s *State) SV {
		return SV{s, VTuple{boolVal(false), zeroOf2(tt.At(1).Type()), zeroOf2(tt.At(2).Type())}}
	}
	e.linearFork = false
	in, out := s.split(Cond{CGe, x.rope.Len().Sub(i).AddC(-1)})
	if e.linearFork {
		e.iterFork = true
	}
	var res []SV
	if in != nil {
		in.mut(it.O).val = VInt{i.AddC(1)}
		if !v.IsString {
			el := x.rope[0].V[i.C].(VTuple)
			res = append(res, SV{in, VTuple{boolVal(true), el[0], el[1]}})
		} else {
			for _, r := range e.readRope(in, x.rope, i, nil, types.Typ[types.Int32], v) {
				var key Lin
				if i.IsConst() && i.C == 0 {
					key = konst(0)
				} else if c := constIter(x.name); c != "" && i.IsConst() {
					n := int64(0)
					for b := range c {
						if n == i.C {
							key = konst(int64(b))
						}
						n++
					}
				} else {
					kk := fmt.Sprintf("byteoff|%d|%s", it.O, i.Key())
					y, ok := e.lens[kk]
					if !ok {
						y = e.newSym("byteoffset", ivSet(0, maxLen))
						e.lens[kk] = y
					}
					key = symLin(y)
					r.S.addCons(key.Sub(i))
					r.S.addCons(i.Mul(4).Sub(key))
				}
				res = append(res, SV{r.S, VTuple{boolVal(true), VInt{key}, r.V}})
			}
		}
	}
	if out != nil {
		res = append(res, done(out))
	}
	return res
}

func constIter(name string) string {
	if len(name) > 6 && name[:6] == "const:" {
		return name[6:]
	}
	return ""
}

func zeroOf2(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VUnk{"unused"}
	}
	return zeroOf(t)
}

func sortStrings(a []string) { sort.Strings(a) }
func sortInts(a []int64)     { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }

func utf8Size(v int64) int64 {
	switch {
	case v < 0 || v > 0x10ffff:
		return 3
	case v < 0x80:
		return 1
	case v < 0x800:
		return 2
	case v < 0x10000:
		return 3
	}
	return 4
}

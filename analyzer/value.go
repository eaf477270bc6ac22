package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.
type Value interface{}

type (
	// VInt is an integer (runes and bytes included).
	VInt struct{ L Lin }
	// VBool is a truth value, possibly a condition not decided yet.
	VBool struct{ C Cond }
	// VNil is the nil pointer, map, function, channel or interface.
	VNil struct{}
	// VErr is an opaque non-nil interface value with an identity.
	VErr struct{ ID string }
	// VIface is an interface holding a value of a known dynamic type.
	VIface struct {
		T types.Type
		V Value
	}
	// VPtr points to an object, an element of an array object, or a field.
	VPtr struct {
		O    ObjID
		Idx  *Lin
		Path []int
	}
	// VSlice is a window of an array object. O == 0 is the nil slice.
	VSlice struct {
		O        ObjID
		Off, Len Lin
		Max      *Lin // index in the array the capacity ends at; nil: its end
	}
	VStr    struct{ R Rope }
	VMap    struct{ O ObjID }
	VStruct struct{ F []Value }
	VArr    struct{ R Rope }
	VFunc   struct {
		F    *ssa.Function
		B    *ssa.Builtin
		Free []Value
	}
	VTuple []Value
	// VEmb is an array within a struct in memory: an object of its own.
	VEmb struct{ O ObjID }
	// VExt is a value of the environment: a source, a sink, or an opaque
	// variable of another package.
	VExt struct{ Kind string }
	// VIter is the state object of a range over a string or map.
	VIter struct{ O ObjID }
	// VBuilder is the content of a strings.Builder or bytes.Buffer.
	VBuilder struct{ R Rope }
	VUnk     struct{ Why string }
)

// Cond is L == 0, L != 0 or L >= 0.
type Cond struct {
	Op CondOp
	L  Lin
}

type CondOp int

const (
	CEq CondOp = iota
	CNe
	CGe
)

var (
	condTrue  = Cond{CEq, Lin{}}
	condFalse = Cond{CNe, Lin{}}
)

func boolVal(b bool) VBool {
	if b {
		return VBool{condTrue}
	}
	return VBool{condFalse}
}

func (c Cond) Not() Cond {
	switch c.Op {
	case CEq:
		return Cond{CNe, c.L}
	case CNe:
		return Cond{CEq, c.L}
	}
	return Cond{CGe, c.L.Neg().AddC(-1)}
}

// ConstVal reports the value of a constant condition.
func (c Cond) ConstVal() (val, ok bool) {
	if !c.L.IsConst() {
		return false, false
	}
	switch c.Op {
	case CEq:
		return c.L.C == 0, true
	case CNe:
		return c.L.C != 0, true
	}
	return c.L.C >= 0, true
}

// ObjID names an object of the abstract heap.
type ObjID int

type ObjKind int

const (
	oCell ObjKind = iota
	oArr
	oMap
	oIter
)

// Origin is a set: where the memory of an object may come from.
type Origin int

const (
	origFresh  Origin = 1 << iota // allocated by the analysed call
	origGlobal                    // allocated by package initialisation
	origInput                     // memory of the caller, read-only for the callee
	origOut                       // memory of the caller the callee may write
	origOwn                       // memory owned by the receiver
)

func (o Origin) String() string {
	var out []string
	for i, n := range []string{"fresh", "package-level", "caller's input", "caller's output", "receiver's"} {
		if o&(1<<uint(i)) != 0 {
			out = append(out, n)
		}
	}
	return strings.Join(out, " or ")
}

// Obj is an abstract object. Objects are copied on write unless owned.
type Obj struct {
	owner  int64
	kind   ObjKind
	val    Value
	rope   Rope
	m      *MapObj
	origin Origin
	name   string
	alias  []Alias // array objects this one may overlap with
}

// Alias says that this object may be the same memory as O. With D known, index
// i here is index i+D there.
type Alias struct {
	O     ObjID
	D     Lin
	Known bool
}

// MapObj is a map with constant keys.
type MapObj struct {
	ints map[int64]Value
	strs map[string]Value
	top  bool // written with unknown keys: no information left
}

// ---- ropes ----

// Rope is the content of an array or string as a sequence of pieces.
type Rope []Piece

type PieceKind int

const (
	pElems PieceKind = iota // explicit elements
	pSub                    // elements [Lo,Hi) of a symbolic sequence
	pHom                    // the specified translation of [Lo,Hi) of a sequence
	pUnk                    // anything
	pRune                   // UTF-8 form of the rune V[0]
)

type Piece struct {
	K      PieceKind
	V      []Value
	Seq    *Seq
	Hom    *Hom
	Lo, Hi Lin
	U8     bool // rune-valued piece in a byte sequence, as UTF-8
	Ln     Lin
}

// Seq is a symbolic sequence (an input, or a stream).
type Seq struct {
	ID    int
	Name  string
	Runes bool // elements are runes, else bytes
	Len   Lin  // meaningless for streams
	Of    *Seq // the byte sequence [OfLo,OfHi) of which the runes are decoded from
	OfLo  Lin
	OfHi  Lin
	// For sequences that name the output of a translation:
	HomOf *Hom
	HSeq  *Seq
	HLo   Lin
	HHi   Lin
	HU8   bool
	Final func(*State) bool // whether nothing follows the end
}

func elems(vs ...Value) Piece {
	return Piece{K: pElems, V: vs, Ln: konst(int64(len(vs)))}
}

func sub(q *Seq, lo, hi Lin) Piece {
	return Piece{K: pSub, Seq: q, Lo: lo, Hi: hi, Ln: hi.Sub(lo)}
}

func constRope(s string) Rope {
	if s == "" {
		return nil
	}
	vs := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		vs[i] = VInt{konst(int64(s[i]))}
	}
	return Rope{elems(vs...)}
}

func (r Rope) Len() Lin {
	var l Lin
	for _, p := range r {
		l = l.Add(p.Ln)
	}
	return l
}

// constString returns the rope's bytes if all are constants.
func (r Rope) constString() (string, bool) {
	var b []byte
	for _, p := range r {
		if p.K != pElems {
			return "", false
		}
		for _, v := range p.V {
			i, ok := v.(VInt)
			if !ok || !i.L.IsConst() {
				return "", false
			}
			b = append(b, byte(i.L.C))
		}
	}
	return string(b), true
}

func concat(rs ...Rope) Rope {
	var out Rope
	for _, r := range rs {
		for _, p := range r {
			out = out.push(p)
		}
	}
	return out
}

// push appends a piece, joining it with the last one where they are adjacent.
func (r Rope) push(p Piece) Rope {
	if len(r) == 0 {
		return Rope{p}
	}
	l := r[len(r)-1]
	join := func(q Piece) Rope {
		return append(append(Rope{}, r[:len(r)-1]...), q)
	}
	switch {
	case p.K == pElems && l.K == pElems:
		return join(elems(append(append([]Value{}, l.V...), p.V...)...))
	case p.K == pUnk && l.K == pUnk:
		l.Ln = l.Ln.Add(p.Ln)
		return join(l)
	case p.K == pSub && l.K == pSub && p.Seq == l.Seq && p.U8 == l.U8 && l.Hi.Eq(p.Lo):
		l.Hi, l.Ln = p.Hi, l.Ln.Add(p.Ln)
		return join(l)
	case p.K == pHom && l.K == pHom && p.Seq == l.Seq && p.Hom == l.Hom && p.U8 == l.U8 && l.Hi.Eq(p.Lo):
		l.Hi, l.Ln = p.Hi, l.Ln.Add(p.Ln)
		return join(l)
	}
	return append(append(Rope{}, r...), p)
}

// unfoldSeq turns a piece that is all of a named translation output back.
func (p Piece) unfold(s *State) Piece {
	if p.K == pSub && p.Seq.HomOf != nil && s.entailsEq(p.Lo, Lin{}) && s.entailsEq(p.Hi, p.Seq.Len) {
		return Piece{K: pHom, Hom: p.Seq.HomOf, Seq: p.Seq.HSeq, Lo: p.Seq.HLo, Hi: p.Seq.HHi, U8: p.Seq.HU8, Ln: p.Ln}
	}
	return p
}

// ---- printing ----

func (s *State) linStr(l Lin) string {
	var b strings.Builder
	for _, t := range l.T {
		if b.Len() > 0 {
			b.WriteByte('+')
		}
		if t.K != 1 {
			fmt.Fprintf(&b, "%d*", t.K)
		}
		b.WriteString(s.e.syms[t.S].name)
	}
	if b.Len() == 0 {
		if l.C > 255 {
			return fmt.Sprintf("%#x", l.C)
		}
		return fmt.Sprint(l.C)
	}
	if l.C > 0 {
		fmt.Fprintf(&b, "+%d", l.C)
	} else if l.C < 0 {
		fmt.Fprint(&b, l.C)
	}
	return b.String()
}

func (s *State) ropeStr(r Rope) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, p := range r {
		if i > 0 {
			b.WriteString(" ++ ")
		}
		switch p.K {
		case pElems:
			for j, v := range p.V {
				if j > 0 {
					b.WriteByte(' ')
				}
				if j == 8 {
					fmt.Fprintf(&b, "..%d more", len(p.V)-j)
					break
				}
				b.WriteString(s.valStr(v))
			}
		case pSub:
			fmt.Fprintf(&b, "%s[%s:%s]", p.Seq.Name, s.linStr(p.Lo), s.linStr(p.Hi))
		case pHom:
			fmt.Fprintf(&b, "%s(%s[%s:%s])", p.Hom.Name, p.Seq.Name, s.linStr(p.Lo), s.linStr(p.Hi))
		case pUnk:
			fmt.Fprintf(&b, "?{%s}", s.linStr(p.Ln))
		case pRune:
			fmt.Fprintf(&b, "utf8(%s)", s.valStr(p.V[0]))
		}
	}
	b.WriteByte(']')
	return b.String()
}

func (s *State) valStr(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<unset>"
	case VInt:
		return s.linStr(v.L)
	case VBool:
		if c, ok := v.C.ConstVal(); ok {
			return fmt.Sprint(c)
		}
		return s.linStr(v.C.L) + [...]string{"==0", "!=0", ">=0"}[v.C.Op]
	case VNil:
		return "nil"
	case VErr:
		return v.ID
	case VIface:
		return fmt.Sprintf("iface(%s)", s.valStr(v.V))
	case VPtr:
		return fmt.Sprintf("&obj%d", v.O)
	case VSlice:
		if v.O == 0 {
			return "nil slice"
		}
		return fmt.Sprintf("obj%d[%s:+%s]", v.O, s.linStr(v.Off), s.linStr(v.Len))
	case VStr:
		if c, ok := v.R.constString(); ok {
			return fmt.Sprintf("%q", c)
		}
		return s.ropeStr(v.R)
	case VStruct:
		var fs []string
		for _, f := range v.F {
			fs = append(fs, s.valStr(f))
		}
		return "{" + strings.Join(fs, ", ") + "}"
	case VTuple:
		var fs []string
		for _, f := range v {
			fs = append(fs, s.valStr(f))
		}
		return "(" + strings.Join(fs, ", ") + ")"
	case VUnk:
		return "unknown:" + v.Why
	}
	return fmt.Sprintf("%T", v)
}

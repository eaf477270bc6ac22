package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callInstr(s *State, v *ssa.Call) []SV {
	e.callsSeen[v] = true
	c := v.Common()
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = s.val(a)
	}
	if c.IsInvoke() {
		return e.invoke(s, v, s.val(c.Value), args)
	}
	fv, ok := s.val(c.Value).(VFunc)
	if !ok {
		return e.nilDeref(s, v, s.val(c.Value))
	}
	if fv.B != nil {
		return e.builtin(s, v, fv.B.Name(), args)
	}
	return e.apply(s, v, fv, args)
}

// apply calls a function value.
func (e *Engine) apply(s *State, site ssa.Instruction, f VFunc, args []Value) []SV {
	fn := f.F
	if fn == nil {
		return e.builtin(s, site, f.B.Name(), args)
	}
	if m, ok := fnModels[fullName(fn)]; ok && !e.fnInModule(fn) {
		e.modelsUsed[fullName(fn)]++
		return m(e, s, site, args)
	}
	if e.fnInModule(fn) && fn.Blocks != nil {
		return e.call(s, fn, args, f.Free, site)
	}
	if e.initing && fn.Synthetic == "package initializer" {
		return one(s, VTuple{})
	}
	if interpretable(fn) && fn.Blocks != nil {
		return e.call(s, fn, args, f.Free, site)
	}
	e.undecided(site, "call of %s, which is not modelled", fn)
	return nil
}

// fnInModule tells whether the body of fn belongs to the analysed code:
// declared in it, or a wrapper or closure around something that is.
// interpretable: a function of another package whose source is interpreted
// when it has no model.
func interpretable(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	var path string
	switch {
	case f.Pkg != nil:
		path = f.Pkg.Pkg.Path()
		f.Pkg.Build()
	case f.Object() != nil && f.Object().Pkg() != nil:
		path = f.Object().Pkg().Path()
		if sp := f.Prog.Package(f.Object().Pkg()); sp != nil {
			sp.Build()
		}
	}
	switch path {
	case "slices", "sort", "cmp", "maps", "strings", "bytes", "errors", "io", "unicode", "unicode/utf8", "unicode/utf16", "math/bits":
		return true
	}
	return strings.HasPrefix(path, "golang.org/x/text/")
}

func (e *Engine) fnInModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return e.inModule(f.Pkg.Pkg)
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return e.inModule(o.Pkg())
	}
	return fn.Synthetic != ""
}

func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

func (e *Engine) invoke(s *State, v *ssa.Call, recv Value, args []Value) []SV {
	m := v.Common().Method
	switch r := recv.(type) {
	case VIface:
		fn := e.prog.LookupMethod(r.T, m.Pkg(), m.Name())
		if fn == nil {
			e.undecided(v, "method %s of %s", m.Name(), r.T)
			return nil
		}
		if e.driving(v.Parent()) {
			e.stream.fn = fn
		}
		return e.apply(s, v, VFunc{F: fn}, append([]Value{r.V}, args...))
	case VErr:
		if m.Name() == "Error" {
			return one(s, VStr{Rope{{K: pUnk, Ln: symLin(e.freshLen("error text"))}}})
		}
	case VExt:
		if h, ok := e.ext[r.Kind+"."+m.Name()]; ok {
			return h(e, s, v, args)
		}
	}
	if _, ok := recv.(VNil); ok {
		return e.nilDeref(s, v, recv)
	}
	e.undecided(v, "call of method %s on %s", m.Name(), s.valStr(recv))
	return nil
}

func (e *Engine) builtin(s *State, site ssa.Instruction, name string, args []Value) []SV {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case VSlice:
			return one(s, VInt{x.Len})
		case VStr:
			return one(s, VInt{x.R.Len()})
		case VArr:
			return one(s, VInt{x.R.Len()})
		case VPtr:
			return one(s, VInt{s.obj(x.O).rope.Len()})
		case VNil:
			return one(s, VInt{})
		case VMap:
			m := s.obj(x.O).m
			if !m.top {
				return one(s, VInt{konst(int64(len(m.ints) + len(m.strs)))})
			}
			return one(s, VInt{symLin(e.freshLen("len(map)"))})
		}
	case "cap":
		switch x := args[0].(type) {
		case VSlice:
			return one(s, VInt{e.capOf(s, x)})
		case VArr:
			return one(s, VInt{x.R.Len()})
		case VPtr:
			return one(s, VInt{s.obj(x.O).rope.Len()})
		}
	case "append":
		return e.appendTo(s, site, args)
	case "copy":
		return e.copyTo(s, site, args)
	case "min", "max":
		cur := []SV{{s, args[0]}}
		for _, b := range args[1:] {
			var next []SV
			for _, c := range cur {
				x, ok1 := lin(c.V)
				y, ok2 := lin(b)
				if !ok1 || !ok2 {
					e.undecided(site, "%s", name)
					return nil
				}
				le, gt := c.S.split(Cond{CGe, y.Sub(x)})
				if name == "max" {
					x, y = y, x
				}
				if le != nil {
					next = append(next, SV{le, VInt{x}})
				}
				if gt != nil {
					next = append(next, SV{gt, VInt{y}})
				}
			}
			cur = next
		}
		return cur
	case "delete":
		if m, ok := args[0].(VMap); ok {
			e.wrote(s, m.O, Lin{}, site)
			x := s.mut(m.O)
			switch k := args[1].(type) {
			case VInt:
				if k.L.IsConst() {
					delete(x.m.ints, k.L.C)
					return one(s, VTuple{})
				}
			case VStr:
				if c, ok := k.R.constString(); ok {
					delete(x.m.strs, c)
					return one(s, VTuple{})
				}
			}
			x.m.top = true
			return one(s, VTuple{})
		}
	case "recover":
		return one(s, VNil{})
	case "print", "println":
		return one(s, VTuple{})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			return e.nilDeref(s, site, args[0])
		}
		return one(s, args[0])
	}
	e.undecided(site, "builtin %s on %s", name, s.valStr(args[0]))
	return nil
}

// appendTo models append. The result may or may not be the old memory.
func (e *Engine) appendTo(s *State, site ssa.Instruction, args []Value) []SV {
	base, ok := args[0].(VSlice)
	if !ok {
		e.undecided(site, "append to %s", s.valStr(args[0]))
		return nil
	}
	type sr struct {
		s *State
		r Rope
	}
	var adds []sr
	switch x := args[1].(type) {
	case VSlice:
		for _, c := range e.content(s, x) {
			adds = append(adds, sr{c.S, c.R})
		}
	case VStr:
		adds = append(adds, sr{s, x.R})
	default:
		e.undecided(site, "append of %s", s.valStr(x))
		return nil
	}
	var out []SV
	for _, a := range adds {
		out = append(out, e.appendRope(a.s, site, base, a.r)...)
	}
	return out
}

func (e *Engine) appendRope(s *State, site ssa.Instruction, base VSlice, add Rope) []SV {
	n := add.Len()
	if s.entailsEq(n, Lin{}) {
		return one(s, base) // nothing appended: the same slice
	}
	if base.O == 0 {
		if !s.entails(n.AddC(-1)) {
			// Nil stays nil if nothing is appended.
			y, no := s.split(Cond{CGe, n.AddC(-1)})
			var out []SV
			if y != nil {
				out = append(out, e.appendRope(y, site, base, add)...)
			}
			if no != nil {
				out = append(out, SV{no, base})
			}
			return out
		}
		r := append(append(Rope{}, add...), Piece{K: pUnk, Ln: symLin(e.freshLen("cap"))})
		return one(s, VSlice{O: s.alloc(&Obj{kind: oArr, rope: r, name: "append"}), Len: n})
	}
	var out []SV
	for _, c := range e.content(s, base) {
		t := c.S
		room := e.capOf(t, base).Sub(base.Len)
		fresh := t.entails(n.Sub(room).AddC(-1)) // never fits
		if !fresh && t.entails(room.Sub(n)) {
			// Always fits.
			for _, u := range e.writeRange(t, base.O, base.Off.Add(base.Len), add, site) {
				out = append(out, SV{u, VSlice{O: base.O, Off: base.Off, Len: base.Len.Add(n), Max: base.Max}})
			}
			continue
		}
		x := t.obj(base.O)
		no := &Obj{kind: oArr, name: x.name, origin: origFresh}
		no.rope = append(concat(c.R, add), Piece{K: pUnk, Ln: symLin(e.freshLen("cap"))})
		if !fresh {
			e.wrote(t, base.O, base.Off.Add(base.Len), site)
			e.weakUnk(t, base.O, base.Off.Add(base.Len), n)
			e.clobberAliases(t, base.O, base.Off.Add(base.Len), n)
			no.origin |= t.obj(base.O).origin
			no.alias = []Alias{{base.O, base.Off, true}}
			for _, a := range t.obj(base.O).alias {
				no.alias = append(no.alias, Alias{a.O, a.D.Add(base.Off), a.Known})
			}
		}
		id := t.alloc(no)
		out = append(out, SV{t, VSlice{O: id, Len: base.Len.Add(n)}})
	}
	return out
}

func (e *Engine) copyTo(s *State, site ssa.Instruction, args []Value) []SV {
	dst, ok := args[0].(VSlice)
	if !ok {
		e.undecided(site, "copy to %s", s.valStr(args[0]))
		return nil
	}
	var srcLen Lin
	switch x := args[1].(type) {
	case VSlice:
		srcLen = x.Len
	case VStr:
		srcLen = x.R.Len()
	default:
		e.undecided(site, "copy of %s", s.valStr(x))
		return nil
	}
	if dst.O == 0 {
		return one(s, VInt{})
	}
	all, part := s.split(Cond{CGe, dst.Len.Sub(srcLen)})
	var out []SV
	do := func(s *State, n Lin) {
		if s.entailsEq(n, Lin{}) {
			out = append(out, SV{s, VInt{Lin{}}})
			return
		}
		var rs []sRope
		switch x := args[1].(type) {
		case VSlice:
			for _, c := range e.content(s, VSlice{O: x.O, Off: x.Off, Len: n}) {
				rs = append(rs, sRope{c.S, c.R})
			}
		case VStr:
			for _, c := range e.cutRope(s, x.R, n) {
				if !c.OK {
					c.L = Rope{{K: pUnk, Ln: n}}
				}
				rs = append(rs, sRope{c.S, c.L})
			}
		}
		for _, r := range rs {
			for _, t := range e.writeRange(r.S, dst.O, dst.Off, r.R, site) {
				out = append(out, SV{t, VInt{n}})
			}
		}
	}
	if all != nil {
		do(all, srcLen)
	}
	if part != nil {
		do(part, dst.Len)
	}
	return out
}

// ---- models of functions of other packages ----

type model func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV

var fnModels map[string]model

func init() {
	str := func(f func(e *Engine, s *State, site ssa.Instruction, r Rope) []SV) model {
		return func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			switch x := args[0].(type) {
			case VStr:
				return f(e, s, site, x.R)
			case VSlice:
				var out []SV
				for _, c := range e.content(s, x) {
					out = append(out, f(e, c.S, site, c.R)...)
				}
				return out
			}
			e.undecided(site, "argument %s", s.valStr(args[0]))
			return nil
		}
	}
	newErr := func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
		e.nfresh++
		id := fmt.Sprintf("error made at %s#%d", e.siteKey(site), e.nfresh)
		if c, ok := args[0].(VStr); ok {
			if t, ok := c.R.constString(); ok {
				id = fmt.Sprintf("error %q#%d", t, e.nfresh)
			}
		}
		return one(s, VErr{id})
	}
	fnModels = map[string]model{
		"errors.New": newErr,
		"fmt.Errorf": newErr,
		"errors.Is": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return e.equal(s, args[0], args[1], site)
		},
		"unicode/utf8.RuneLen": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			l := args[0].(VInt).L
			y, n := s.splitIn(l, runeDom)
			var out []SV
			if y != nil {
				out = append(out, SV{y, VInt{e.runeLen(y, l)}})
			}
			if n != nil {
				out = append(out, SV{n, VInt{konst(-1)}})
			}
			return out
		},
		"unicode/utf8.ValidRune": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return inSet(s, args[0].(VInt).L, runeDom)
		},
		"unicode/utf8.RuneStart": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return inSet(s, args[0].(VInt).L, ISet{{0, 0x7f}, {0xc0, 0xff}})
		},
		"unicode/utf8.EncodeRune": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			dst, ok := args[0].(VSlice)
			if !ok {
				e.undecided(site, "EncodeRune to %s", s.valStr(args[0]))
				return nil
			}
			var out []SV
			for _, r := range e.runePiece(s, args[1].(VInt).L) {
				n := r.R.Len()
				t := e.require(r.S, site, "room for EncodeRune", Cond{CGe, dst.Len.Sub(n)})
				if t == nil {
					continue
				}
				for _, u := range e.writeRange(t, dst.O, dst.Off, r.R, site) {
					out = append(out, SV{u, VInt{n}})
				}
			}
			return out
		},
		"unicode/utf8.AppendRune": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			base, ok := args[0].(VSlice)
			if !ok {
				e.undecided(site, "AppendRune")
				return nil
			}
			var out []SV
			for _, r := range e.runePiece(s, args[1].(VInt).L) {
				out = append(out, e.appendRope(r.S, site, base, r.R)...)
			}
			return out
		},
		"unicode/utf8.DecodeRune":             str(decodeRune),
		"unicode/utf8.DecodeRuneInString":     str(decodeRune),
		"unicode/utf8.FullRune":               str(fullRune),
		"unicode/utf8.FullRuneInString":       str(fullRune),
		"unicode/utf8.DecodeLastRune":         str(decodeLast),
		"unicode/utf8.DecodeLastRuneInString": str(decodeLast),
		"unicode/utf8.RuneCount":              str(runeCount),
		"unicode/utf8.RuneCountInString":      str(runeCount),
		"unicode/utf8.ValidString":            str(validUTF8),
		"unicode/utf8.Valid":                  str(validUTF8),
		"sort.Search":                         sortSearch,
		"strings.Map":                         stringsMap,
		"strings.HasPrefix": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return affix(e, s, site, args, true)
		},
		"strings.HasSuffix": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return affix(e, s, site, args, false)
		},
		"strings.IndexRune": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return indexRune(e, s, site, args, strings.IndexRune)
		},
		"strings.IndexByte": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			return indexRune(e, s, site, args, func(c string, r rune) int { return strings.IndexByte(c, byte(r)) })
		},
		"strings.ContainsRune": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			outs := indexRune(e, s, site, args, strings.IndexRune)
			for i := range outs {
				if l, ok := lin(outs[i].V); ok {
					outs[i].V = VBool{Cond{CGe, l}}
				}
			}
			return outs
		},
		"strings.Join": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			sl, ok := args[0].(VSlice)
			sep, ok2 := args[1].(VStr)
			if ok && ok2 {
				var out []SV
				for _, c := range e.content(s, sl) {
					var r Rope
					good := true
					k := 0
					for _, p := range c.R {
						if p.K != pElems {
							good = false
							break
						}
						for _, v := range p.V {
							x, ok := v.(VStr)
							if !ok {
								good = false
								break
							}
							if k > 0 {
								r = concat(r, sep.R)
							}
							k++
							r = concat(r, x.R)
						}
					}
					if !good {
						r = Rope{{K: pUnk, Ln: symLin(e.freshLen("join"))}}
					}
					out = append(out, SV{c.S, VStr{r}})
				}
				return out
			}
			e.undecided(site, "strings.Join")
			return nil
		},
		"unicode.Is": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			x, ok := args[0].(VExt)
			if !ok {
				e.undecided(site, "unicode.Is of %s", s.valStr(args[0]))
				return nil
			}
			set, ok := unicodeTable(x.Kind)
			if !ok {
				e.undecided(site, "unicode.Is of %s", x.Kind)
				return nil
			}
			return inSet(s, args[1].(VInt).L, set)
		},
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"internal/bytealg.MakeNoZero": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			n := args[0].(VInt).L
			if s = e.require(s, site, "make size in range", Cond{CGe, n}); s == nil {
				return nil
			}
			r := Rope{{K: pUnk, Ln: n.Add(symLin(e.freshLen("cap")))}}
			return one(s, VSlice{O: s.alloc(&Obj{kind: oArr, rope: r, name: "make"}), Len: n})
		},
		"bytes.Repeat":   repeat,
		"strings.Repeat": repeat,
		"bytes.NewReader": func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			e.undecided(site, "bytes.NewReader")
			return nil
		},
	}
	// Builders and buffers.
	type bmodel func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV
	bld := func(set bool, f bmodel) model {
		return func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
			p, ok := args[0].(VPtr)
			if !ok {
				return e.nilDeref(s, site, args[0])
			}
			x := s.obj(p.O)
			b, ok := project(x.val, p.Path).(VBuilder)
			if !ok || x.kind != oCell {
				e.undecided(site, "builder %s", s.valStr(args[0]))
				return nil
			}
			outs := f(e, s, site, b.R, args[1:])
			if !set {
				return outs
			}
			for i := range outs {
				tu := outs[i].V.(VTuple)
				y := outs[i].S.mut(p.O)
				e.wrote(outs[i].S, p.O, Lin{}, site)
				y.val = setPath(y.val, p.Path, tu[0])
				rest := tu[1:]
				switch len(rest) {
				case 1:
					outs[i].V = rest[0]
				default:
					outs[i].V = VTuple(rest)
				}
			}
			return outs
		}
	}
	wstr := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		x, ok := args[0].(VStr)
		if !ok {
			return nil
		}
		return one(s, VTuple{VBuilder{concat(r, x.R)}, VInt{x.R.Len()}, VNil{}})
	}
	wbytes := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		x, ok := args[0].(VSlice)
		if !ok {
			return nil
		}
		var out []SV
		for _, c := range e.content(s, x) {
			out = append(out, SV{c.S, VTuple{VBuilder{concat(r, c.R)}, VInt{x.Len}, VNil{}}})
		}
		return out
	}
	wbyte := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		return one(s, VTuple{VBuilder{concat(r, Rope{elems(args[0])})}, VNil{}})
	}
	wrune := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		var out []SV
		for _, x := range e.runePiece(s, args[0].(VInt).L) {
			out = append(out, SV{x.S, VTuple{VBuilder{concat(r, x.R)}, VInt{x.R.Len()}, VNil{}}})
		}
		return out
	}
	length := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		return one(s, VInt{r.Len()})
	}
	toStr := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		return one(s, VStr{r})
	}
	grow := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		if s = e.require(s, site, "non-negative Grow", Cond{CGe, args[0].(VInt).L}); s == nil {
			return nil
		}
		return one(s, VTuple{})
	}
	reset := func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		return one(s, VTuple{VBuilder{}, VTuple{}})
	}
	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		fnModels[t+".WriteString"] = bld(true, wstr)
		fnModels[t+".Write"] = bld(true, wbytes)
		fnModels[t+".WriteByte"] = bld(true, wbyte)
		fnModels[t+".WriteRune"] = bld(true, wrune)
		fnModels[t+".Len"] = bld(false, length)
		fnModels[t+".String"] = bld(false, toStr)
		fnModels[t+".Grow"] = bld(false, grow)
		fnModels[t+".Reset"] = bld(true, reset)
	}
	fnModels["(*bytes.Buffer).Bytes"] = bld(false, func(e *Engine, s *State, site ssa.Instruction, r Rope, args []Value) []SV {
		if len(r) == 0 {
			return one(s, VSlice{})
		}
		rr := append(append(Rope{}, r...), Piece{K: pUnk, Ln: symLin(e.freshLen("cap"))})
		return one(s, VSlice{O: s.alloc(&Obj{kind: oArr, rope: rr, name: "buffer"}), Len: r.Len()})
	})
}

func nop(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	return one(s, VTuple{})
}

// inSet is the truth of l being in a set.
func inSet(s *State, l Lin, set ISet) []SV {
	y, n := s.splitIn(l, set)
	var out []SV
	if y != nil {
		out = append(out, SV{y, boolVal(true)})
	}
	if n != nil {
		out = append(out, SV{n, boolVal(false)})
	}
	return out
}

func unicodeTable(name string) (ISet, bool) {
	name = strings.TrimPrefix(name, "unicode.")
	for _, m := range []map[string]*unicode.RangeTable{unicode.Scripts, unicode.Categories, unicode.Properties} {
		if t, ok := m[name]; ok {
			var set ISet
			for _, r := range t.R16 {
				for x := int64(r.Lo); x <= int64(r.Hi); x += int64(r.Stride) {
					set = append(set, Iv{x, x})
				}
			}
			for _, r := range t.R32 {
				for x := int64(r.Lo); x <= int64(r.Hi); x += int64(r.Stride) {
					set = append(set, Iv{x, x})
				}
			}
			return normISet(set), true
		}
	}
	return nil, false
}

// window finds the byte sequence a rope is a window of.
func window(s *State, r Rope) (q *Seq, lo, hi Lin, ok bool) {
	r = trim(s, r)
	if len(r) == 1 && r[0].K == pSub && !r[0].U8 && !r[0].Seq.Runes {
		return r[0].Seq, r[0].Lo, r[0].Hi, true
	}
	return nil, Lin{}, Lin{}, false
}

// runeAt is the rune that decoding at position p of q gives if enough bytes
// follow, and its size.
func (e *Engine) runeAt(q *Seq, p Lin) (r, w Lin) {
	key := fmt.Sprintf("%d@%s", q.ID, p.Key())
	mk := func(k, name string, dom ISet) Lin {
		x, ok := e.lens[k+key]
		if !ok {
			x = e.newSym(name, dom)
			e.lens[k+key] = x
			if k == "dr" {
				e.runeDefs[x] = readDef{q, p}
			}
		}
		return symLin(x)
	}
	nm := linName(e, p)
	return mk("dr", fmt.Sprintf("rune at %s[%s]", q.Name, nm), ISet{{0x80, 0xD7FF}, {0xE000, 0x10FFFF}}), mk("ds", fmt.Sprintf("runesize at %s[%s]", q.Name, nm), ivSet(1, 4))
}

func linName(e *Engine, l Lin) string {
	s := &State{e: e}
	return s.linStr(l)
}

// samePos finds a syntactic position already used for q which equals p.
func (e *Engine) canonPos(s *State, q *Seq, p Lin) Lin {
	key := fmt.Sprintf("%d@%s", q.ID, p.Key())
	if _, ok := e.lens["dr"+key]; ok {
		return p
	}
	for _, rd := range e.readList[q.ID] {
		if _, ok := e.lens["dr"+fmt.Sprintf("%d@%s", q.ID, rd.pos.Key())]; ok && s.entailsEq(rd.pos, p) {
			return rd.pos
		}
	}
	return p
}

// fullness partitions by whether [p,hi) of q starts with a complete (or
// invalid) UTF-8 sequence. The byte at p must be known to be 0x80 or above.
func (e *Engine) fullness(s *State, q *Seq, p, hi Lin) (full, inc *State) {
	key := fmt.Sprintf("%d@%s", q.ID, p.Key())
	_, w := e.runeAt(q, p)
	if at, ok := s.facts["full|"+key]; ok {
		if s.entails(hi.Sub(at)) || s.entails(hi.Sub(p).Sub(w)) {
			return s, nil
		}
	}
	if at, ok := s.facts["inc|"+key]; ok && s.entails(at.Sub(hi)) {
		return nil, s
	}
	// A later byte of an incomplete sequence: alone, it is invalid.
	if _, ok := s.withinInc(q, p, hi); ok {
		return s, nil
	}
	if s.entails(hi.Sub(p).AddC(-4)) {
		full = s
	} else {
		e.linearFork = true
		full, inc = s, s.fork()
	}
	full.facts["full|"+key] = hi
	full.addCons(hi.Sub(p).Sub(w))
	if inc != nil {
		inc.facts["inc|"+key] = hi
		inc.facts["incpos|"+key] = p
		inc.addCons(p.Sub(hi).AddC(3))
		if !inc.feasible() {
			inc = nil
		}
	}
	if !full.feasible() {
		full = nil
	}
	return full, inc
}

// withinInc reports whether position p is inside (not at the start of) an
// incomplete sequence at the end of the data.
func (s *State) withinInc(q *Seq, p, hi Lin) (Lin, bool) {
	pre := fmt.Sprintf("incpos|%d@", q.ID)
	for k, at := range s.facts {
		if strings.HasPrefix(k, pre) && s.entails(p.Sub(at).AddC(-1)) {
			end := s.facts["inc|"+k[len("incpos|"):]]
			if s.entails(end.Sub(p).AddC(-1)) {
				return at, true
			}
		}
	}
	return Lin{}, false
}

const runeError = 0xFFFD

// constPrefix is the known bytes at the start of a byte rope, at most four
// are needed, and whether they are all of it.
func constPrefix(s *State, r Rope) (out []byte, whole bool) {
	for _, p := range r {
		if p.K != pElems {
			return out, false
		}
		for _, v := range p.V {
			l, ok := lin(v)
			if !ok {
				return out, false
			}
			if !l.IsConst() {
				vs := s.values(l)
				if vs.Size() != 1 {
					return out, false
				}
				l = konst(vs[0].Lo)
			}
			out = append(out, byte(l.C))
			if len(out) >= 8 {
				return out, false
			}
		}
	}
	return out, true
}

func decodeRune(e *Engine, s *State, site ssa.Instruction, r Rope) []SV {
	r = trim(s, r)
	pair := func(r Lin, w Lin) Value { return VTuple{VInt{r}, VInt{w}} }
	n := r.Len()
	var out []SV
	y, no := s.split(Cond{CGe, n.AddC(-1)})
	if no != nil {
		out = append(out, SV{no, pair(konst(runeError), konst(0))})
	}
	if y == nil {
		return out
	}
	s = y
	q, lo, hi, ok := window(s, r)
	if !ok {
		if p, whole := constPrefix(s, r); whole || utf8.FullRune(p) {
			x, w := utf8.DecodeRune(p)
			return append(out, SV{s, pair(konst(int64(x)), konst(int64(w)))})
		}
		if len(r) > 0 && r[0].K == pElems {
			if l, ok := lin(r[0].V[0]); ok && s.values(l).Subset(ivSet(0, 0x7f)) {
				return append(out, SV{s, pair(l, konst(1))})
			}
		}
		if len(r) > 0 && r[0].K == pRune {
			if l, ok := lin(r[0].V[0]); ok {
				valid, not := s.splitIn(l, scalarDom)
				if valid != nil {
					out = append(out, SV{valid, pair(l, r[0].Ln)})
				}
				if not != nil {
					out = append(out, SV{not, pair(konst(runeError), r[0].Ln)})
				}
				return out
			}
		}
		// The bytes are not a window of an input: anything.
		e.nondet++
		e.nfresh++
		x := e.newSym(fmt.Sprintf("rune#%d", e.nfresh), runeDom)
		w := e.newSym(fmt.Sprintf("runesize#%d", e.nfresh), ivSet(1, 4))
		s.addCons(n.Sub(symLin(w)))
		return append(out, SV{s, pair(symLin(x), symLin(w))})
	}
	b := e.readSym(s, q, lo)
	asc, multi := s.splitIn(b, ivSet(0, 0x7f))
	if asc != nil {
		out = append(out, SV{asc, pair(b, konst(1))})
	}
	if multi != nil {
		lo := e.canonPos(multi, q, lo)
		if _, in := multi.withinInc(q, lo, hi); in {
			return append(out, SV{multi, pair(konst(runeError), konst(1))})
		}
		full, inc := e.fullness(multi, q, lo, hi)
		if full != nil {
			x, w := e.runeAt(q, lo)
			out = append(out, SV{full, pair(x, w)})
		}
		if inc != nil {
			out = append(out, SV{inc, pair(konst(runeError), konst(1))})
		}
	}
	return out
}

func fullRune(e *Engine, s *State, site ssa.Instruction, r Rope) []SV {
	r = trim(s, r)
	var out []SV
	y, no := s.split(Cond{CGe, r.Len().AddC(-1)})
	if no != nil {
		out = append(out, SV{no, boolVal(false)})
	}
	if y == nil {
		return out
	}
	s = y
	q, lo, hi, ok := window(s, r)
	if !ok {
		if len(r) > 0 && r[0].K == pRune {
			return append(out, SV{s, boolVal(true)})
		}
		if len(r) > 0 && r[0].K == pElems {
			if l, ok := lin(r[0].V[0]); ok && s.values(l).Subset(ivSet(0, 0x7f)) {
				return append(out, SV{s, boolVal(true)})
			}
		}
		if p, whole := constPrefix(s, r); whole || utf8.FullRune(p) {
			return append(out, SV{s, boolVal(utf8.FullRune(p))})
		}
		e.nondet++
		return append(out, SV{s, e.anyOf(s, types.Typ[types.Bool], "full rune")})
	}
	b := e.readSym(s, q, lo)
	asc, multi := s.splitIn(b, ivSet(0, 0x7f))
	if asc != nil {
		out = append(out, SV{asc, boolVal(true)})
	}
	if multi != nil {
		full, inc := e.fullness(multi, q, e.canonPos(multi, q, lo), hi)
		if full != nil {
			out = append(out, SV{full, boolVal(true)})
		}
		if inc != nil {
			out = append(out, SV{inc, boolVal(false)})
		}
	}
	return out
}

func decodeLast(e *Engine, s *State, site ssa.Instruction, r Rope) []SV {
	pair := func(r Lin, w Lin) Value { return VTuple{VInt{r}, VInt{w}} }
	rs := e.runesOf(s, r)
	n := rs.Len()
	y, no := s.split(Cond{CGe, n.AddC(-1)})
	var out []SV
	if no != nil {
		out = append(out, SV{no, pair(konst(runeError), konst(0))})
	}
	if y != nil {
		for _, v := range e.readRope(y, rs, n.AddC(-1), nil, types.Typ[types.Int32], site) {
			w := e.newSym("lastsize", ivSet(1, 4))
			v.S.addCons(r.Len().Sub(symLin(w)))
			out = append(out, SV{v.S, VTuple{v.V, VInt{symLin(w)}}})
		}
	}
	return out
}

func runeCount(e *Engine, s *State, site ssa.Instruction, r Rope) []SV {
	return one(s, VInt{e.runesOf(s, r).Len()})
}

func validUTF8(e *Engine, s *State, site ssa.Instruction, r Rope) []SV {
	if c, ok := r.constString(); ok {
		return one(s, boolVal(validStr(c)))
	}
	return one(s, VBool{Cond{CNe, symLin(e.atom("valid " + s.ropeStr(r)))}})
}

func validStr(c string) bool {
	for i, x := range c {
		if x == runeError && !strings.HasPrefix(c[i:], "\uFFFD") {
			return false
		}
	}
	return true
}

func affix(e *Engine, s *State, site ssa.Instruction, args []Value, prefix bool) []SV {
	a, ok1 := args[0].(VStr)
	b, ok2 := args[1].(VStr)
	if !ok1 || !ok2 {
		e.undecided(site, "string arguments")
		return nil
	}
	ac, o1 := a.R.constString()
	bc, o2 := b.R.constString()
	if o1 && o2 {
		if prefix {
			return one(s, boolVal(strings.HasPrefix(ac, bc)))
		}
		return one(s, boolVal(strings.HasSuffix(ac, bc)))
	}
	if o2 && bc == "" {
		return one(s, boolVal(true))
	}
	k := "suffix"
	if prefix {
		k = "prefix"
	}
	return one(s, VBool{Cond{CNe, symLin(e.atom(k + " " + s.ropeStr(b.R) + " of " + s.ropeStr(a.R)))}})
}

func indexRune(e *Engine, s *State, site ssa.Instruction, args []Value, f func(string, rune) int) []SV {
	c, ok := args[0].(VStr)
	if ok {
		if t, ok := c.R.constString(); ok {
			l := args[1].(VInt).L
			var keys []int64
			for _, x := range t {
				keys = append(keys, int64(x))
			}
			y, n := s.splitIn(l, setOf(keys))
			var out []SV
			if y != nil {
				out = append(out, SV{y, VInt{y.mapInt("index", l, func(x int64) int64 { return int64(f(t, rune(x))) })}})
			}
			if n != nil {
				out = append(out, SV{n, VInt{konst(-1)}})
			}
			return out
		}
	}
	e.undecided(site, "search in a non-constant string")
	return nil
}

// stringsMap models strings.Map by the translation of the rune sequence.
func stringsMap(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	f, ok := args[0].(VFunc)
	str, ok2 := args[1].(VStr)
	if !ok || !ok2 {
		e.undecided(site, "strings.Map")
		return nil
	}
	r := trim(s, e.runesOf(s, str.R))
	if len(r) == 0 {
		return one(s, VStr{})
	}
	explicit := true
	for _, p := range r {
		if p.K != pElems {
			explicit = false
		}
	}
	if explicit {
		// One rune after the other.
		outs := []sRope{{S: s}}
		for _, p := range r {
			for _, v := range p.V {
				var next []sRope
				for _, o := range outs {
					for _, y := range e.apply(o.S, site, f, []Value{v}) {
						l, ok := lin(y.V)
						if !ok {
							e.undecided(site, "strings.Map: result %s", y.S.valStr(y.V))
							continue
						}
						drop, keep := y.S.split(Cond{CGe, l.Neg().AddC(-1)})
						if drop != nil {
							next = append(next, sRope{drop, o.R})
						}
						if keep != nil {
							for _, u := range e.runePiece(keep, l) {
								next = append(next, sRope{u.S, concat(o.R, u.R)})
							}
						}
					}
				}
				outs = next
			}
		}
		var res []SV
		for _, o := range outs {
			res = append(res, SV{o.S, VStr{o.R}})
		}
		return res
	}
	// The function must map each rune as one of the translations does.
	for _, tg := range e.targets {
		h := tg.H
		if !h.OutRunes || !h.InRunes || h.conv == nil || len(r) != 1 || r[0].K != pSub {
			continue
		}
		t := s.fork()
		x := e.newSym("rune of strings.Map", scalarDom)
		good := true
		save := e.log
		e.log = newLog()
		for _, o := range e.apply(t, site, f, []Value{VInt{symLin(x)}}) {
			l, ok := lin(o.V)
			for id, ob := range s.heap {
				if o.S.heap[id] != ob {
					ok = false // a mapping with a state
				}
			}
			if !ok || !h.runeOut(o.S, symLin(x), l) {
				good = false
				e.noteMismatch(o.S, h, site, "strings.Map maps a rune differently")
				break
			}
		}
		sub := e.log
		e.log = save
		e.log.add(sub)
		if good {
			p := Piece{K: pHom, Hom: h, Seq: r[0].Seq, Lo: r[0].Lo, Hi: r[0].Hi, U8: true}
			p.Ln = e.u8Len(s, p)
			return one(s, VStr{Rope{p}})
		}
	}
	// Unknown output; the mapping may still panic.
	t := s.fork()
	x := e.newSym("rune of strings.Map", scalarDom)
	for _, o := range e.apply(t, site, f, []Value{VInt{symLin(x)}}) {
		for id, ob := range s.heap {
			if o.S.heap[id] != ob {
				e.undecided(site, "strings.Map with a function that changes state")
				return nil
			}
		}
	}
	return one(s, VStr{Rope{{K: pUnk, Ln: symLin(e.freshLen("map"))}}})
}

// sortSearch models sort.Search by its definition: the binary search is
// simulated for each value the predicate depends on.
func sortSearch(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	n, ok := lin(args[0])
	f, ok2 := args[1].(VFunc)
	if !ok || !ok2 {
		e.undecided(site, "sort.Search")
		return nil
	}
	unknown := func() []SV {
		e.nfresh++
		x := symLin(e.newSym(fmt.Sprintf("search#%d", e.nfresh), ivSet(0, posInf)))
		s.addCons(n.Sub(x))
		return one(s, VInt{x})
	}
	if !n.IsConst() || n.C > 1<<20 {
		return unknown()
	}
	if n.C <= 0 {
		return one(s, VInt{})
	}
	i := e.newSym("search index", ivSet(0, n.C-1))
	type outcome struct {
		conds []func(iv, kv int64) bool
		val   func(iv, kv int64) bool
	}
	t := s.fork()
	nc := len(t.cons)
	lf := e.linearFork
	nev := len(e.log.events)
	outs := e.apply(t, site, f, []Value{VInt{symLin(i)}})
	e.linearFork = lf
	for _, ev := range e.log.events[nev:] {
		if ev.Kind == "write" {
			return unknown()
		}
	}
	// Everything must be a function of the index and at most one other root.
	key := Sym(-1)
	good := true
	var keys []Sym
	// What the outcome depends on, to use what was found for the same search.
	desc := sha256.New()
	var dep []Sym
	var depF func(int64) int64
	form := func(st *State, l Lin) func(iv, kv int64) int64 {
		type term struct {
			k   int64
			idx bool
			f   func(int64) int64
		}
		var ts []term
		fmt.Fprintf(desc, "form %d", l.C)
		for _, tm := range l.T {
			r, fn := st.rootOf(tm.S)
			if r != i {
				if key < 0 {
					key = r
				}
				if r != key {
					good = false
				}
				keys = append(keys, r)
			}
			if r == i {
				fmt.Fprintf(desc, " %d*idx", tm.K)
				if fn != nil {
					var b []byte
					for x := int64(0); x < n.C; x++ {
						b = binary.AppendVarint(b, fn(x))
					}
					desc.Write(b)
				}
			} else {
				id := 0
				for id < len(dep) && dep[id] != tm.S {
					id++
				}
				if id == len(dep) {
					dep = append(dep, tm.S)
					depF = fn
				}
				fmt.Fprintf(desc, " %d*key%d", tm.K, id)
			}
			ts = append(ts, term{tm.K, r == i, fn})
		}
		c := l.C
		return func(iv, kv int64) int64 {
			x := c
			for _, tm := range ts {
				v := kv
				if tm.idx {
					v = iv
				}
				if tm.f != nil {
					v = tm.f(v)
				}
				x += tm.k * v
			}
			return x
		}
	}
	var ocs []outcome
	for _, o := range outs {
		b, ok := o.V.(VBool)
		if !ok {
			return unknown()
		}
		var oc outcome
		if len(o.S.cons) < nc {
			return unknown()
		}
		for _, c := range o.S.cons[nc:] {
			fmt.Fprint(desc, " cond ")
			g := form(o.S, c)
			oc.conds = append(oc.conds, func(iv, kv int64) bool { return g(iv, kv) >= 0 })
		}
		var changed []Sym
		for r := range o.S.iv {
			changed = append(changed, r)
		}
		sort.Slice(changed, func(a, b int) bool { return changed[a] < changed[b] })
		for _, r := range changed {
			set := o.S.iv[r]
			if old, ok := s.iv[r]; ok && old.Equal(set) {
				continue
			}
			if r != i {
				if _, fn := o.S.rootOf(r); fn != nil {
					continue
				}
			}
			fmt.Fprint(desc, " in ", set)
			g := form(o.S, symLin(r))
			oc.conds = append(oc.conds, func(iv, kv int64) bool { return set.Has(g(iv, kv)) })
		}
		fmt.Fprint(desc, " result ", b.C.Op)
		g := form(o.S, b.C.L)
		op := b.C.Op
		oc.val = func(iv, kv int64) bool { return holds(op, g(iv, kv)) }
		ocs = append(ocs, oc)
	}
	if len(outs) == 0 {
		return unknown()
	}
	if !good {
		// Once more, with the roots combined to one.
		var rs []Sym
		seen := map[Sym]bool{}
		for _, r := range keys {
			if q, f := s.rootOf(r); q != r || f != nil {
				return unknown()
			}
			if !seen[r] {
				seen[r] = true
				rs = append(rs, r)
			}
		}
		if !s.combine(rs) {
			return unknown()
		}
		return sortSearch(e, s, site, args)
	}
	pred := func(iv, kv int64) bool {
		for _, oc := range ocs {
			sat := true
			for _, c := range oc.conds {
				if !c(iv, kv) {
					sat = false
					break
				}
			}
			if sat {
				return oc.val(iv, kv)
			}
		}
		return false
	}
	search := func(kv int64) int64 {
		lo, hi := int64(0), n.C
		for lo < hi {
			h := (lo + hi) / 2
			if !pred(h, kv) {
				lo = h + 1
			} else {
				hi = h
			}
		}
		return lo
	}
	if key < 0 {
		return one(s, VInt{konst(search(0))})
	}
	if len(dep) == 1 {
		id := fmt.Sprintf("%x", desc.Sum(nil))
		if e.searches == nil {
			e.searches = map[string]map[int64]int64{}
		}
		known := e.searches[id]
		if known == nil {
			known = map[int64]int64{}
			e.searches[id] = known
		}
		plain, of := search, depF
		search = func(kv int64) int64 {
			x := kv
			if of != nil {
				x = of(kv)
			}
			if y, ok := known[x]; ok {
				return y
			}
			y := plain(kv)
			known[x] = y
			return y
		}
	}
	// key may have been re-rooted inside the closure; find it in s.
	if r, fn := s.rootOf(key); r != key || fn != nil {
		return unknown()
	}
	if s.rootSet(key).Size() > tabLimit {
		return unknown()
	}
	return one(s, VInt{s.derived("search("+e.syms[key].name+")", key, s.memo(key, search))})
}

func posKey(q *Seq, p Lin) string { return fmt.Sprintf("%d@%s", q.ID, p.Key()) }

// repeat models bytes.Repeat and strings.Repeat.
func repeat(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	k, ok := lin(args[1])
	if !ok {
		e.undecided(site, "Repeat")
		return nil
	}
	if s = e.require(s, site, "non-negative count", Cond{CGe, k}); s == nil {
		return nil
	}
	type in struct {
		s *State
		r Rope
	}
	var ins []in
	x, isSlice := args[0].(VSlice)
	if isSlice {
		for _, c := range e.content(s, x) {
			ins = append(ins, in{c.S, c.R})
		}
	} else {
		ins = append(ins, in{s, args[0].(VStr).R})
	}
	var out []SV
	give := func(s *State, r Rope) {
		if !isSlice {
			out = append(out, SV{s, VStr{r}})
			return
		}
		n := r.Len()
		out = append(out, SV{s, VSlice{O: s.alloc(&Obj{kind: oArr, rope: append(r, Piece{K: pUnk, Ln: symLin(e.freshLen("cap"))}), name: "repeat"}), Len: n}})
	}
	for _, i := range ins {
		rest := i.s // small counts one by one
		for n := int64(0); n <= 4 && rest != nil; n++ {
			var y *State
			y, rest = rest.split(Cond{CEq, k.AddC(-n)})
			if y == nil || !y.feasible() {
				continue
			}
			var r Rope
			for j := int64(0); j < n; j++ {
				r = concat(r, i.r)
			}
			give(y, r)
		}
		if rest != nil && rest.feasible() {
			m := symLin(e.freshLen("repeat"))
			if l := i.r.Len(); l.IsConst() {
				m = k.Mul(l.C)
			}
			give(rest, Rope{{K: pUnk, Ln: m}})
		}
	}
	return out
}

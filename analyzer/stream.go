package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Histories of calls on a reader or writer: C17, C18, C19.
//
// A driver that is added to the module in memory calls Read (Write) for ever,
// with slices, a source and a sink that the environment below provides. The
// loop of the driver gets an inductive invariant like any other one, so that
// whatever its states satisfy holds after any number of calls, with
// any chunks, buffers and errors. The environment's answers are as general as
// the interfaces allow; it compares what is passed to it with the conversion of
// the stream.

const driverPkg = "zz_hgdriver"

func driverSource(cp949 string) string {
	return `package ` + driverPkg + `

import (
	"io"

	cp949 "` + cp949 + `"
)

type Env interface {
	Source() io.Reader
	Buf() []byte
	Got(b []byte, n int, err error)

	Sink() io.Writer
	Data() []byte
	Put(d []byte, n int, err error) bool

	Refused(err error)
}

func ReadAll(env Env) {
	r, err := cp949.NewReader(env.Source())
	if err != nil {
		env.Refused(err)
		return
	}
	for {
		b := env.Buf()
		n, err := r.Read(b)
		env.Got(b, n, err)
	}
}

func WriteAll(env Env) {
	w, err := cp949.NewWriter(env.Sink())
	if err != nil {
		env.Refused(err)
		return
	}
	for {
		d := env.Data()
		n, err := w.Write(d)
		if !env.Put(d, n, err) {
			return
		}
	}
}
`
}

// stream is the environment of a driver.
type stream struct {
	c       *Run
	e       *Engine
	h       *Hom
	in      *Seq           // what the source delivers, what is written
	out     *Seq           // its conversion
	fn      *ssa.Function  // the method that is called
	growing bool           // no character has fewer bytes in the conversion
	bufs    map[ObjID]*Seq // what the caller's buffers held before
}

// The ghosts of a history.
const (
	ghPos   = "pos"   // bytes the source has delivered, or that were written
	ghDone  = "done"  // bytes of the conversion that were delivered
	ghConv  = "conv"  // pairs: a boundary in the stream, and where its conversion begins
	ghEnd   = "end"   // how the source ended
	ghTail  = "tail"  // what there is after the last boundary of conv
	ghAsked = "asked" // the source was asked in this call
	ghFinal = "final" // the error that was returned
	ghFrom  = "from"  // bytes written before this call
)

func (e *Engine) driving(fn *ssa.Function) bool {
	return e.stream != nil && fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), driverPkg)
}

// ob records an obligation, in the log of the current analysis.
func (st *stream) ob(ok bool, kind, format string, args ...interface{}) bool {
	e := st.e
	where := "?"
	if st.fn != nil {
		where = st.c.pos(st.fn)
	}
	k := where + " " + kind
	old, seen := e.log.obls[k]
	e.log.obls[k] = ok && (old || !seen)
	if !ok {
		if os.Getenv("HG_OB") != "" {
			fmt.Printf("OB "+kind+": "+format+"\n", args...)
		}
		e.log.findings = append(e.log.findings, Finding{Kind: kind, Fn: st.fn, Where: where, Msg: fmt.Sprintf(format, args...)})
	}
	return ok
}

func ghostLin(s *State, g string) Lin { l, _ := lin(s.ghosts[g]); return l }

// convAt is the place in the conversion of a boundary of the stream.
func (st *stream) convAt(s *State, p Lin) (Lin, bool) {
	cv, _ := s.ghosts[ghConv].(VTuple)
	for i := 0; i+1 < len(cv); i += 2 {
		if a, _ := lin(cv[i]); s.entailsEq(a, p) {
			d, _ := lin(cv[i+1])
			return d, true
		}
	}
	return Lin{}, false
}

func (st *stream) boundAt(s *State, d Lin) (Lin, bool) {
	cv, _ := s.ghosts[ghConv].(VTuple)
	for i := len(cv) - 2; i >= 0; i -= 2 {
		if a, _ := lin(cv[i+1]); s.entailsEq(a, d) {
			p, _ := lin(cv[i])
			return p, true
		}
	}
	return Lin{}, false
}

func (st *stream) addConv(s *State, p, d Lin) {
	if old, ok := st.convAt(s, p); ok {
		if !s.entailsEq(old, d) {
			s.assume(Cond{CEq, old.Sub(d)})
		}
		return
	}
	st.longer(s, p, d)
	cv, _ := s.ghosts[ghConv].(VTuple)
	s.ghosts[ghConv] = append(cv[:len(cv):len(cv)], VInt{p}, VInt{d})
}

// longer notes that the conversion to UTF-8 never has fewer bytes.
func (st *stream) longer(s *State, p, d Lin) {
	if st.growing {
		s.addCons(d.Sub(p))
	}
}

// last is the last boundary that is known to be converted.
func (st *stream) last(s *State) (p, d Lin) {
	cv, _ := s.ghosts[ghConv].(VTuple)
	for i := 0; i+1 < len(cv); i += 2 {
		a, _ := lin(cv[i])
		b, _ := lin(cv[i+1])
		if i == 0 || s.entails(a.Sub(p)) {
			p, d = a, b
		}
	}
	return p, d
}

// place rewrites conversions of stretches of the stream to stretches of the
// conversion of the stream.
func (st *stream) place(s *State, r Rope, explicit bool) (Rope, bool) {
	if !ropeOfInts(r) {
		return r, false
	}
	var out Rope
	changed := false
	var cur *Lin
	rest := trim(s, r)
	for len(rest) > 0 {
		p := rest[0]
		if p.K == pSub && p.Seq == st.out {
			cur = nil
			if b, ok := st.boundAt(s, p.Hi); ok {
				cur = &b
			}
			out = out.push(p)
			rest = rest[1:]
			continue
		}
		if p.K == pHom && p.Hom == st.h && p.Seq == st.in && !p.U8 {
			if d, ok := st.convAt(s, p.Lo); ok {
				hi := d.Add(p.Ln)
				st.addConv(s, p.Hi, hi)
				out = out.push(sub(st.out, d, hi))
				cur = &p.Hi
				rest = rest[1:]
				changed = true
				continue
			}
		}
		if p.K == pElems && len(p.V) <= 64 || p.K == pRune {
			var from []Lin
			if cur != nil {
				from = append(from, *cur)
			} else if explicit {
				cv, _ := s.ghosts[ghConv].(VTuple)
				for i := len(cv) - 2; i >= 0; i -= 2 {
					a, _ := lin(cv[i])
					from = append(from, a)
				}
			}
			hit := false
			for _, a := range from {
				np, nr, ok := st.e.consume(s, st.h, st.in, a, rest)
				if !ok {
					continue
				}
				d, _ := st.convAt(s, a)
				hi := d.Add(ropeLen(rest).Sub(ropeLen(nr)))
				st.addConv(s, np, hi)
				out = out.push(sub(st.out, d, hi))
				cur, rest, hit, changed = &np, nr, true, true
				break
			}
			if hit {
				continue
			}
		}
		cur = nil
		out = out.push(p)
		rest = rest[1:]
	}
	return out, changed
}

// settle expresses all memory in terms of the conversion of the whole
// stream, and then keeps the last converted boundary only.
func (st *stream) settle(s *State, keep bool) {
	e := st.e
	if st.out != nil {
		for again := true; again; {
			again = false
			for _, o := range s.objIDs() {
				x := s.heap[o]
				if x.kind != oArr || e.base[o] != nil {
					continue
				}
				if r, ok := st.place(s, x.rope, false); ok {
					s.mut(o).rope = r
					again = true
				}
			}
		}
	}
	if keep {
		return
	}
	p, d := st.last(s)
	s.ghosts[ghConv] = VTuple{VInt{p}, VInt{d}}
	for _, t := range e.targets {
		s.ghosts[bndName(t)] = VInt{p}
	}
	s.ghosts[ghTail] = VErr{st.tail(s, p)}
}

// tail tells what follows the boundary p: nothing, an incomplete character,
// or something else.
func (st *stream) tail(s *State, p Lin) string {
	rem := ghostLin(s, ghPos).Sub(p)
	if s.entailsEq(rem, Lin{}) {
		return "whole"
	}
	if st.h.dec != nil {
		b, ok := st.e.peek(s, st.in, p)
		if ok && s.entailsEq(rem, konst(1)) && s.values(b).Subset(ivSet(0x80, 0xff)) {
			return "cut"
		}
		return "open"
	}
	return st.cutAt(s, p)
}

// cutAt tells whether what was written ends inside the character at p.
func (st *stream) cutAt(s *State, p Lin) string {
	pos := ghostLin(s, ghPos)
	for _, rd := range append([]readRec{{pos: p}}, st.e.readList[st.in.ID]...) {
		end, ok := s.facts["inc|"+posKey(st.in, rd.pos)]
		if ok && s.entailsEq(rd.pos, p) && s.entailsEq(end, pos) {
			return "cut"
		}
	}
	if t, ok := s.ghosts[ghTail].(VErr); ok && t.ID == "cut" && s.entailsEq(pos, ghostLin(s, ghFrom)) {
		return "cut"
	}
	return "open"
}

// seed restores in a template what its ghosts say.
func (st *stream) seed(t *State) {
	t.addCons(st.in.Len.Sub(ghostLin(t, ghPos)))
	if p, d := st.last(t); st.out != nil {
		st.longer(t, p, d)
		t.addCons(ghostLin(t, ghPos).Sub(p))
	}
	if v, ok := t.ghosts[ghTail].(VErr); !ok || v.ID != "cut" {
		return
	}
	p, _ := st.last(t)
	pos := ghostLin(t, ghPos)
	b := st.e.readSym(t, st.in, p)
	r, f := t.rootOf(b.T[0].S)
	if f == nil {
		t.iv[r] = t.rootSet(r).Intersect(ivSet(0x80, 0xff))
	}
	if st.h.dec != nil {
		t.addCons(pos.Sub(p).AddC(-1))
		t.addCons(p.Sub(pos).AddC(1))
		return
	}
	p = st.e.canonPos(t, st.in, p)
	key := posKey(st.in, p)
	st.e.runeAt(st.in, p)
	t.facts["inc|"+key] = pos
	t.facts["incpos|"+key] = p
	t.addCons(pos.Sub(p).AddC(-1))
	t.addCons(p.Sub(pos).AddC(3))
}

// ---- the reader's environment ----

func (st *stream) source(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	s.ghosts[ghAsked] = boolVal(true)
	st.settle(s, true)
	_, d := st.last(s)
	st.ob(s.entailsEq(ghostLin(s, ghDone), d), "order", "the source is read while there is converted data (%s of %s delivered) when %s", s.linStr(ghostLin(s, ghDone)), s.linStr(d), s.describe())
	p, ok := args[0].(VSlice)
	if !ok {
		e.undecided(site, "buffer %s for the source", s.valStr(args[0]))
		return nil
	}
	if end, over := s.ghosts[ghEnd].(VErr); over {
		// It need not give the same error again.
		_ = end
		return []SV{{s, VTuple{VInt{}, VErr{"io.EOF"}}}, {s.fork(), VTuple{VInt{}, VErr{srcErr}}}}
	}
	var out []SV
	for _, end := range []string{"", "io.EOF", srcErr} {
		t := s.fork()
		n := symLin(e.freshLen("n(source)"))
		if p.O == 0 {
			n = konst(0)
		}
		pos := ghostLin(t, ghPos)
		t.assume(Cond{CGe, p.Len.Sub(n)})
		t.assume(Cond{CGe, st.in.Len.Sub(pos).Sub(n)})
		var err Value = VNil{}
		if end != "" {
			t.assume(Cond{CEq, st.in.Len.Sub(pos).Sub(n)})
			err = VErr{end}
			t.ghosts[ghEnd] = err
		}
		if !t.feasible() {
			continue
		}
		t.ghosts[ghPos] = VInt{pos.Add(n)}
		if p.O == 0 {
			out = append(out, SV{t, VTuple{VInt{n}, err}})
			continue
		}
		// The source may use all of its buffer as scratch space.
		for _, u := range e.writeRange(t, p.O, p.Off, Rope{sub(st.in, pos, pos.Add(n)), {K: pUnk, Ln: p.Len.Sub(n)}}, site) {
			out = append(out, SV{u, VTuple{VInt{n}, err}})
		}
	}
	return out
}

func (st *stream) buf(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	s.ghosts[ghAsked] = boolVal(false)
	q := e.newSeq("buf", false)
	pre, n, post := symLin(e.freshLen("before(buf)")), symLin(e.freshLen("len(buf)")), symLin(e.freshLen("after(buf)"))
	q.Len = pre.Add(n).Add(post)
	o := s.alloc(&Obj{kind: oArr, origin: origOut, name: "buf", rope: Rope{sub(q, konst(0), q.Len)}})
	e.roots[o] = true
	st.bufs[o] = q
	// A nil slice is the case that all are 0.
	return one(s, VSlice{O: o, Off: pre, Len: n})
}

func (st *stream) got(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	b, ok1 := args[0].(VSlice)
	n, ok2 := lin(args[1])
	if !ok1 || !ok2 {
		e.undecided(site, "Read returns %s", s.valStr(args[1]))
		return nil
	}
	if !st.ob(s.entails(n) && s.entails(b.Len.Sub(n)), "contract", "Read returns n = %s, not known to be between 0 and len(buf), when %s", s.linStr(n), s.describe()) {
		return nil
	}
	var out []SV
	if b.O == 0 {
		return st.gotAll(s, b, n, args[2])
	}
	q := st.bufs[b.O]
	for _, x := range e.content(s, VSlice{O: b.O, Off: b.Off, Len: n}) {
		s := x.S
		same := s.ropeEq(x.L, Rope{sub(q, konst(0), b.Off)}) && s.ropeEq(x.T, Rope{sub(q, b.Off.Add(n), q.Len)})
		st.ob(same, "contract", "Read may have written outside buf[:%s]: %s | %s | %s, when %s", s.linStr(n), s.ropeStr(x.L), s.ropeStr(x.R), s.ropeStr(x.T), s.describe())
		r, _ := st.place(s, x.R, true)
		y := ghostLin(s, ghDone)
		good := true
		for _, p := range trim(s, r) {
			if p.K != pSub || p.Seq != st.out || !s.entailsEq(p.Lo, y) {
				good = false
				break
			}
			y = p.Hi
		}
		good = good && s.entailsEq(y, ghostLin(s, ghDone).Add(n))
		st.ob(good, "content", "Read returns %s where the conversion of the source's data continues at %s%s; when %s", s.ropeStr(r), s.linStr(ghostLin(s, ghDone)), e.mismatches(), s.describe())
		if !good {
			continue
		}
		// The buffer is the caller's again.
		e.clobber(s, b.O)
		out = append(out, st.gotAll(s, b, n, args[2])...)
	}
	return out
}

func (st *stream) gotAll(s *State, b VSlice, n Lin, err Value) []SV {
	e := st.e
	st.settle(s, true)
	y := ghostLin(s, ghDone).Add(n)
	s.ghosts[ghDone] = VInt{y}
	if f := s.ghosts[ghFinal]; !isNil(f) {
		st.ob(s.entailsEq(n, Lin{}) && s.valKey(f) == s.valKey(err), "final", "after the error %s, Read returns %s bytes and %s, when %s", s.valStr(f), s.linStr(n), s.valStr(err), s.describe())
		s.ghosts[ghAsked] = boolVal(false)
		return one(s, VTuple{})
	}
	if isNil(err) {
		asked, _ := s.ghosts[ghAsked].(VBool).C.ConstVal()
		if !asked {
			st.ob(s.entails(n.AddC(-1)) || s.entailsEq(b.Len, Lin{}) || !s.fork2(Cond{CEq, n}, Cond{CGe, b.Len.AddC(-1)}), "progress", "Read returns 0, nil without asking the source, when %s", s.describe())
		}
	} else {
		k := errKind(s, err)
		end, over := s.ghosts[ghEnd].(VErr)
		p, found := st.boundAt(s, y)
		tail := ""
		if found {
			for i := 0; i < 8; i++ {
				w, ok := e.tokenLen(s, st.h, st.in, p)
				if !ok || !s.entails(ghostLin(s, ghPos).Sub(p).Sub(w)) {
					break
				}
				p, found = p.Add(w), false // not delivered
			}
			tail = st.tail(s, p)
		}
		good := over && found
		st.ob(good, "complete", "Read returns the error %s, but it is not known that the source has ended and all of it was delivered (%s of the conversion, source at %s), when %s", s.valStr(err), s.linStr(y), s.linStr(ghostLin(s, ghPos)), s.describe())
		if good {
			want := ""
			switch tail {
			case "whole":
				want = end.ID
			case "cut":
				want = end.ID
				if want == "io.EOF" {
					want = unexpectedStream
				}
			}
			st.ob(want != "" && hasSuffix(k, want), "error", "Read returns the error %s after the source's %s, with %s left over, when %s", k, end.ID, tail, s.describe())
		}
		s.ghosts[ghFinal] = err
	}
	s.ghosts[ghAsked] = boolVal(false)
	return one(s, VTuple{})
}

// fork2: both conditions may hold.
func (s *State) fork2(a, b Cond) bool {
	y, _ := s.fork().split(a)
	if y == nil {
		return false
	}
	z, _ := y.split(b)
	return z != nil && z.feasible()
}

// ---- the writer's environment ----

func (st *stream) data(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	pos := ghostLin(s, ghPos)
	s.ghosts[ghFrom] = VInt{pos}
	pre, n, post := symLin(e.freshLen("before(data)")), symLin(e.freshLen("len(data)")), symLin(e.freshLen("after(data)"))
	s.assume(Cond{CGe, st.in.Len.Sub(pos).Sub(n)})
	s.ghosts[ghPos] = VInt{pos.Add(n)}
	o := s.alloc(&Obj{kind: oArr, origin: origInput, name: "data", rope: Rope{
		{K: pUnk, Ln: pre}, sub(st.in, pos, pos.Add(n)), {K: pUnk, Ln: post}}})
	e.roots[o] = true
	return one(s, VSlice{O: o, Off: pre, Len: n})
}

const sinkError = sinkErr

func (st *stream) sink(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	p, ok := args[0].(VSlice)
	if !ok {
		e.undecided(site, "data %s for the sink", s.valStr(args[0]))
		return nil
	}
	var out []SV
	for _, x := range e.content(s, p) {
		s := x.S
		b, _ := st.last(s)
		hi, ok := e.covers(s, st.h, st.in, b, x.R)
		if !st.ob(ok, "content", "the sink gets %s where the conversion of what was written continues at %s%s; when %s", s.ropeStr(x.R), s.linStr(b), e.mismatches(), s.describe()) {
			continue
		}
		t := s.fork()
		k := symLin(e.freshLen("n(sink)"))
		t.assume(Cond{CGe, p.Len.Sub(k)})
		t.ghosts[ghEnd] = VErr{sinkError}
		s.ghosts[ghConv] = VTuple{VInt{hi}, VInt{}}
		out = append(out, SV{s, VTuple{VInt{p.Len}, VNil{}}}, SV{t, VTuple{VInt{k}, VErr{sinkError}}})
	}
	return out
}

func (st *stream) put(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
	d, ok1 := args[0].(VSlice)
	n, ok2 := lin(args[1])
	if !ok1 || !ok2 {
		e.undecided(site, "Write returns %s", s.valStr(args[1]))
		return nil
	}
	err := args[2]
	if _, failed := s.ghosts[ghEnd].(VErr); failed {
		st.ob(errKind(s, err) == sinkError, "error", "Write returns the error %s after the sink's error, when %s", s.valStr(err), s.describe())
		return one(s, boolVal(false))
	}
	good := st.ob(isNil(err), "error", "Write returns the error %s, which is not the sink's, when %s", s.valStr(err), s.describe())
	good = st.ob(s.entailsEq(n, d.Len), "contract", "Write returns n = %s, not len(data), when %s", s.linStr(n), s.describe()) && good
	b, _ := st.last(s)
	left := ghostLin(s, ghPos).Sub(b)
	tail := st.tail(s, b)
	if tail == "open" && os.Getenv("HG_OB") != "" {
		fmt.Println("FACTS")
		for k, v := range s.facts {
			fmt.Println("   ", k, s.linStr(v))
		}
		for k, v := range s.ghosts {
			fmt.Println("   ", k, s.valStr(v))
		}
		for _, c := range s.cons {
			fmt.Println("   ", s.linStr(c), ">= 0")
		}
	}
	good = st.ob(tail != "open", "complete", "after Write, %s bytes of what was written are held back, which are not known to be an incomplete character, when %s", s.linStr(left), s.describe()) && good
	if !good {
		return nil
	}
	if d.O == 0 {
		return one(s, boolVal(true))
	}
	var out []SV
	for _, x := range e.content(s, d) {
		s := x.S
		same := s.ropeEq(x.R, Rope{sub(st.in, ghostLin(s, ghFrom), ghostLin(s, ghPos))})
		st.ob(same, "contract", "Write changed data to %s, when %s", s.ropeStr(x.R), s.describe())
		e.clobber(s, d.O)
		out = append(out, SV{s, boolVal(true)})
	}
	return out
}

// ---- running a driver ----

// drive analyses the driver and collects the obligations of the given kinds.
func (c *Run) drive(name string, reader bool, kinds map[string]bool) {
	sp := c.p.pkg(driverPkg)
	if !c.ob(sp != nil && sp.Func(name) != nil, "anchor", driverPkg, "no driver") {
		return
	}
	fn := sp.Func(name)
	e, s := c.eng()
	st := &stream{c: c, e: e, bufs: map[ObjID]*Seq{}}
	e.stream = st
	if reader {
		st.h = decodeHom()
		st.growing = true
		for a := int64(0x80); a < 0x100; a++ {
			for b := int64(0); b < 0x100; b++ {
				st.growing = st.growing && len(utf8Bytes(st.h.dec(a, b))) >= 2
			}
		}
	} else {
		st.h = encodeHom(false)
	}
	st.in = symBytes(e, "stream")
	st.in.Final = func(*State) bool { return false }
	if reader {
		st.out = e.newSeq("conversion", false)
		st.out.Len = symLin(e.newSym("len(conversion)", ivSet(0, maxLen)))
	}
	t := target{st.h, st.in}
	e.targets = append(e.targets, t)
	s.ghosts[bndName(t)] = VInt{konst(0)}
	s.ghosts[ghPos] = VInt{konst(0)}
	s.ghosts[ghDone] = VInt{konst(0)}
	s.ghosts[ghConv] = VTuple{VInt{konst(0)}, VInt{konst(0)}}
	s.ghosts[ghEnd] = VNil{}
	s.ghosts[ghTail] = VErr{"whole"}
	s.ghosts[ghAsked] = boolVal(false)
	s.ghosts[ghFinal] = VNil{}
	ctor := "NewReader"
	if !reader {
		ctor = "NewWriter"
	}
	if st.fn = c.function("cp949", ctor); st.fn == nil {
		return
	}
	e.ext["env.Source"] = func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV { return one(s, VExt{"source"}) }
	e.ext["env.Sink"] = func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV { return one(s, VExt{"sink"}) }
	e.ext["env.Refused"] = func(e *Engine, s *State, site ssa.Instruction, args []Value) []SV {
		st.ob(false, "content", "%s fails: %s", ctor, s.valStr(args[0]))
		return nil
	}
	e.ext["env.Buf"] = st.buf
	e.ext["env.Got"] = st.got
	e.ext["source.Read"] = st.source
	e.ext["env.Data"] = st.data
	e.ext["env.Put"] = st.put
	e.ext["sink.Write"] = st.sink
	e.call(s, fn, []Value{VExt{"env"}}, nil, nil)
	seen := map[string]bool{}
	n := 0
	for _, f := range e.log.findings {
		if !kinds[f.Kind] {
			continue
		}
		where := f.Where
		if where == "" {
			where = e.pos(f.Site)
		}
		if k := where + f.Kind; !seen[k] {
			seen[k] = true
			c.ob(false, f.Kind, where, "%s: %s", f.Kind, f.Msg)
		}
	}
	for k, ok := range e.log.obls {
		kind := k[strings.LastIndexByte(k, ' ')+1:]
		if ok && (kinds[kind] || kinds["panic"] && !streamKinds[kind]) {
			c.obls++
			n++
		}
	}
	l := newLog()
	c.collect(e, l, name, false)
	c.ob(n > 0, "vacuous", c.pos(fn), "nothing was checked")
	c.ob(st.fn.Signature.Recv() != nil, "vacuous", c.pos(fn), "no method was analysed")
}

var streamKinds = map[string]bool{"contract": true, "content": true, "order": true, "final": true, "complete": true, "error": true, "progress": true}

var _ = types.Universe

// loopAsks: the loop calls methods of the environment, in the code or in what it calls.
func (e *Engine) loopAsks(l *loopT) bool {
	for b := range l.blocks {
		if e.blockAsks(b) {
			return true
		}
	}
	return false
}

func (e *Engine) blockAsks(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if c.Common().IsInvoke() {
			if n := c.Common().Method.Name(); n == "Read" || n == "Write" {
				return true
			}
		} else if f := c.Common().StaticCallee(); f != nil && e.asks(f) {
			return true
		}
	}
	return false
}

func (e *Engine) asks(f *ssa.Function) bool {
	if a, ok := e.envCalls[f]; ok {
		return a
	}
	if e.envCalls == nil {
		e.envCalls = map[*ssa.Function]bool{}
	}
	e.envCalls[f] = false
	for _, b := range f.Blocks {
		if e.blockAsks(b) {
			e.envCalls[f] = true
			break
		}
	}
	return e.envCalls[f]
}

func init() {
	const rule = "a driver that calls the method for ever is interpreted with an environment whose answers are as general as io allows, with an inductive invariant found for the driver's loop, so for every history of calls, chunking, buffer and error; "
	reg := func(id, r, driver string, reader bool, kinds ...string) {
		m := map[string]bool{"undecided": true}
		for _, k := range kinds {
			m[k] = true
		}
		register(id, "proof", rule+r, func(c *Run) { c.drive(driver, reader, m) })
		checks[id].Driver = true
	}
	reg("C17", "what the reader delivers must be the conversion of the source, piece after piece, and its error come after all of it", "ReadAll", true, "content", "complete", "error", "panic", "termination")
	reg("C18", "n, the memory written, the order of source reads and deliveries, and the errors must be as the contract says", "ReadAll", true, "contract", "order", "final", "progress", "complete")
	reg("C19", "what reaches the sink must be the conversion of what was written, up to an incomplete character", "WriteAll", false, "content", "complete", "error", "contract", "panic", "termination")
}

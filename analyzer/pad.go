package main

import (
	"fmt"
	"strings"
)

// States of a history that differ only in how much there is of something get
// the same shape: a nil slice becomes an empty slice, with no capacity, of the
// array that the same variable refers to in other states, and arrays
// get empty pieces for what they hold in other states.

// padding is what the states seen so far have at each place.
type padding struct {
	refs  map[string]string   // place of a slice: place of its array
	max   map[string]bool     // the slice has a capacity limit
	nils  map[string]bool     // the slice may be nil
	kinds map[string][]string // place of an array: the pieces
}

func newPadding() *padding {
	return &padding{map[string]string{}, map[string]bool{}, map[string]bool{}, map[string][]string{}}
}

// visitor goes through the slices and new arrays of a state in the walker's order.
type visitor struct {
	g     *generaliser
	s     *State
	place map[ObjID]string
	queue []ObjID
	slice func(v VSlice, path string) VSlice
	array func(o ObjID, path string)
}

func (w *visitor) isNew(o ObjID) bool {
	return !w.g.named(o)
}

func (w *visitor) ref(o ObjID, path string) {
	if !w.isNew(o) {
		return
	}
	if _, ok := w.place[o]; !ok {
		w.place[o] = path
		w.queue = append(w.queue, o)
	}
}

func (w *visitor) val(v Value, path string) Value {
	switch v := v.(type) {
	case VSlice:
		v = w.slice(v, path)
		if v.O != 0 {
			w.ref(v.O, path)
		}
		return v
	case VPtr:
		w.ref(v.O, path)
	case VIface:
		return VIface{v.T, w.val(v.V, path+".i")}
	case VStruct:
		out := VStruct{make([]Value, len(v.F))}
		for i, f := range v.F {
			out.F[i] = w.val(f, fmt.Sprintf("%s.%d", path, i))
		}
		return out
	}
	return v
}

func (w *visitor) run() {
	s, g := w.s, w.g
	w.place = map[ObjID]string{}
	for _, v := range g.live {
		if x, ok := s.frame.regs[v]; ok {
			if y := w.val(x, v.Name()); s.valKey(y) != s.valKey(x) {
				s.set(v, y)
			}
		}
	}
	object := func(o ObjID, path string) {
		x := s.obj(o)
		switch x.kind {
		case oCell:
			if y := w.val(x.val, path); s.valKey(y) != s.valKey(x.val) {
				s.mut(o).val = y
			}
		case oArr:
			w.array(o, path)
		}
	}
	var tr []ObjID
	for o := range g.tracked {
		if !g.private[o] {
			tr = append(tr, o)
		}
	}
	sortIDs(tr)
	for _, o := range tr {
		object(o, fmt.Sprintf("obj%d", o))
	}
	for i := 0; i < len(w.queue); i++ {
		object(w.queue[i], w.place[w.queue[i]])
	}
}

func pieceKind(p Piece) string {
	switch p.K {
	case pSub:
		if !p.U8 {
			return fmt.Sprintf("S%d", p.Seq.ID)
		}
	case pUnk:
		return "U"
	}
	return "?"
}

// learn notes what a state has.
func (pd *padding) learn(g *generaliser, s *State) {
	w := &visitor{g: g, s: s}
	w.slice = func(v VSlice, path string) VSlice {
		if v.O == 0 {
			pd.nils[path] = true
			return v
		}
		if !w.isNew(v.O) {
			return v
		}
		if _, ok := w.place[v.O]; !ok {
			pd.refs[path] = path
		} else if _, ok := pd.refs[path]; !ok {
			pd.refs[path] = w.place[v.O]
		}
		if v.Max != nil {
			pd.max[path] = true
		}
		return v
	}
	w.array = func(o ObjID, path string) {
		var ks []string
		for _, p := range trim(s, s.obj(o).rope) {
			ks = append(ks, pieceKind(p))
		}
		if old, ok := pd.kinds[path]; ok {
			ks = superseq(old, ks)
		}
		pd.kinds[path] = ks
	}
	w.run()
}

// superseq is a short sequence that has both as subsequences.
func superseq(a, b []string) []string {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if a[0] == b[0] {
		return append([]string{a[0]}, superseq(a[1:], b[1:])...)
	}
	x := append([]string{a[0]}, superseq(a[1:], b)...)
	y := append([]string{b[0]}, superseq(a, b[1:])...)
	if len(y) < len(x) {
		return y
	}
	return x
}

// apply brings a state into the form.
func (pd *padding) apply(g *generaliser, s *State) {
	e := g.e
	w := &visitor{g: g, s: s}
	where := map[string]ObjID{}
	w.slice = func(v VSlice, path string) VSlice {
		ref, ok := pd.refs[path]
		own := ok && ref == path
		if v.O == 0 && ok {
			o := where[ref]
			if own {
				o = s.alloc(&Obj{kind: oArr, origin: origFresh, name: "make"})
			}
			if o == 0 {
				return v
			}
			v = VSlice{O: o}
			if !own {
				v.Max = &v.Off
			}
		}
		if v.O != 0 && w.isNew(v.O) {
			if _, ok := w.place[v.O]; !ok {
				where[path] = v.O
			}
			if v.Max == nil && (pd.max[path] || pd.nils[path] && !own) {
				n := s.obj(v.O).rope.Len()
				v.Max = &n
			}
		}
		return v
	}
	w.array = func(o ObjID, path string) {
		ks := pd.kinds[path]
		r := trim(s, s.obj(o).rope)
		if len(ks) > 6 || len(ks) == len(r) || strings.Contains(strings.Join(ks, " "), "?") {
			if s.ropeKey(r) != s.ropeKey(s.obj(o).rope) {
				s.mut(o).rope = r
			}
			return
		}
		var out Rope
		for _, k := range ks {
			if len(r) > 0 && pieceKind(r[0]) == k {
				out = append(out, r[0])
				r = r[1:]
				continue
			}
			q := Piece{K: pUnk}
			if k != "U" {
				seq, at := e.stream.in, ghostLin(s, ghPos)
				if e.stream.out != nil && k == fmt.Sprintf("S%d", e.stream.out.ID) {
					seq, at = e.stream.out, ghostLin(s, ghDone)
				} else if k != fmt.Sprintf("S%d", e.stream.in.ID) {
					return
				}
				q = sub(seq, at, at)
			}
			out = append(out, q)
		}
		if len(r) == 0 {
			s.mut(o).rope = out
		}
	}
	w.run()
}

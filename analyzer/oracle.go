package main

import (
	_ "embed"
	"strconv"
	"strings"
)

// Reference data, made by ../tools/oracle.py.

//go:embed oracle/cp949.txt
var cp949Txt string

//go:embed oracle/jamo.txt
var jamoTxt string

//go:embed oracle/hanja.txt
var hanjaTxt string

type oracleT struct {
	dec, enc map[int64]int64 // code page: pair to rune, rune to pair

	lead, medial, tail       map[int64]int64 // conjoining jamo to compatibility jamo
	compat                   map[int64]bool
	leadOf, medialOf, tailOf map[int64]int64 // compatibility jamo to conjoining
	compound                 map[int64][]int64
	stroke                   map[int64]int64
	syl                      map[int64][3]int64
	join                     map[[3]int64]int64
	consts                   map[string]int64

	hanja    map[int64]int64
	hanjaAlt map[int64][]int64
	hanjaKS  map[int64]bool
}

var theOracle *oracleT

func hex(s string) int64 {
	v, err := strconv.ParseInt(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func oracle() *oracleT {
	if theOracle != nil {
		return theOracle
	}
	m := func() map[int64]int64 { return map[int64]int64{} }
	o := &oracleT{dec: m(), enc: m(), lead: m(), medial: m(), tail: m(), compat: map[int64]bool{},
		leadOf: m(), medialOf: m(), tailOf: m(), compound: map[int64][]int64{}, stroke: m(),
		syl: map[int64][3]int64{}, join: map[[3]int64]int64{}, consts: map[string]int64{},
		hanja: m(), hanjaAlt: map[int64][]int64{}, hanjaKS: map[int64]bool{}}
	for _, l := range strings.Fields(strings.ReplaceAll(strings.TrimSpace(cp949Txt), " ", "=")) {
		f := strings.Split(l, "=")
		o.dec[hex(f[0])] = hex(f[1])
		o.enc[hex(f[1])] = hex(f[0])
	}
	for _, l := range strings.Split(strings.TrimSpace(jamoTxt), "\n") {
		f := strings.Fields(l)
		switch f[0] {
		case "lead":
			o.lead[hex(f[1])] = hex(f[2])
			o.leadOf[hex(f[2])] = hex(f[1])
		case "medial":
			o.medial[hex(f[1])] = hex(f[2])
			o.medialOf[hex(f[2])] = hex(f[1])
		case "tail":
			o.tail[hex(f[1])] = hex(f[2])
			o.tailOf[hex(f[2])] = hex(f[1])
		case "compat":
			o.compat[hex(f[1])] = true
		case "compound":
			for _, x := range f[2:] {
				o.compound[hex(f[1])] = append(o.compound[hex(f[1])], hex(x))
			}
		case "stroke":
			n, _ := strconv.Atoi(f[2])
			o.stroke[hex(f[1])] = int64(n)
		case "syllable":
			var t [3]int64
			for i, x := range f[2:] {
				t[i] = hex(x)
			}
			o.syl[hex(f[1])] = t
			o.join[t] = hex(f[1])
		case "const":
			o.consts[f[1]] = hex(f[2])
		}
	}
	for _, l := range strings.Split(strings.TrimSpace(hanjaTxt), "\n") {
		f := strings.Fields(l)
		k := hex(f[0])
		o.hanja[k] = hex(f[2])
		o.hanjaKS[k] = f[1] == "k"
		for _, x := range f[2:] {
			o.hanjaAlt[k] = append(o.hanjaAlt[k], hex(x))
		}
	}
	theOracle = o
	return o
}

// compatOf is the compatibility jamo of any modern jamo, else 0.
func (o *oracleT) compatOf(r int64) int64 {
	if o.compat[r] {
		return r
	}
	for _, m := range []map[int64]int64{o.lead, o.medial, o.tail} {
		if c, ok := m[r]; ok {
			return c
		}
	}
	return 0
}

func (o *oracleT) toLead(r int64) int64   { return toKind(o.lead, o.leadOf, r) }
func (o *oracleT) toMedial(r int64) int64 { return toKind(o.medial, o.medialOf, r) }
func (o *oracleT) toTail(r int64) int64   { return toKind(o.tail, o.tailOf, r) }

func toKind(own, of map[int64]int64, r int64) int64 {
	if _, ok := own[r]; ok {
		return r
	}
	return of[r]
}

func (o *oracleT) strokes(r int64) int64 {
	if t, ok := o.syl[r]; ok {
		return o.strokes(t[0]) + o.strokes(t[1]) + o.strokes(t[2])
	}
	c := o.compatOf(r)
	if es, ok := o.compound[c]; ok {
		var n int64
		for _, x := range es {
			n += o.stroke[x]
		}
		return n
	}
	return o.stroke[c]
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

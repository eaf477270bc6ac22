H, J, S, HJ = 'hangul.go', 'jamo.go', 'stroke.go', 'hanja/hanja.go'
SPLIT = '''	if c < 0xAC00 || c > 0xD7A3 {
		return 0, 0, 0
	}

	t = (c - 0xAC00) % 28
	m = ((c - 0xAC00 - t) % 588) / 28
	l = (c - 0xAC00) / 588

	l += leadBase
	m += medialBase
	if t != 0 {
		t += tailBase - 1
	}

	return
}
'''
CONV = '''	rh := []rune(h)

	for i, c := range rh {
		h, ok := table[c]
		if ok {
			rh[i] = h
		}
	}

	return string(rh)
'''
VARIANTS += [
 ('jamo2-syllable-helper', 'jamo', [(H, '	case 0xAC00 <= r && r <= 0xD7A3:\n		return true\n	case IsJaeum', '	case isSyllable(r):\n		return true\n	case IsJaeum'),
   (H, '	if c < 0xAC00 || c > 0xD7A3 {', '	if !isSyllable(c) {'), (S, '	if 0xAC00 <= r && r <= 0xD7A3 {', '	if isSyllable(r) {'),
   (H, '', '\nfunc isSyllable(r rune) bool { return uint32(r)-0xAC00 < 11172 }\n')]),
 ('jamo2-ends', 'jamo', [(H, '	if LastConsonant(word) == 0 {\n		return false\n	}\n\n	return true\n', '	return LastConsonant(word) != 0\n')]),
 ('jamo2-ends-switch', 'jamo', [(H, '	if LastConsonant(word) == 0 {\n		return false\n	}\n\n	return true\n', '	switch c := LastConsonant(word); {\n	case c > 0:\n		return true\n	default:\n		return false\n	}\n')]),
 ('jamo2-append-choose', 'jamo', [(H, '''	lastTail := LastConsonant(word)
	if with == "으로" && lastTail == TailL {
		return word + without // 로
	}
	if lastTail != 0 {
		return word + with
	}
	return word + without
''', '''	p := without
	switch lastTail := LastConsonant(word); {
	case lastTail == 0:
	case lastTail == TailL && with == "으로":
	default:
		p = with
	}
	return word + p
''')]),
 ('jamo2-append-join', 'jamo', [(H, '''	if lastTail != 0 {
		return word + with
	}
	return word + without
''', '''	if lastTail != 0 {
		return strings.Join([]string{word, with}, "")
	}
	return strings.Join([]string{word, without}, "")
'''), (H, 'package hangul\n', 'package hangul\n\nimport "strings"\n')]),
 ('jamo2-append-sprint', 'jamo', [(H, '''	if lastTail != 0 {
		return word + with
	}
	return word + without
''', '''	suffix := map[bool]string{true: with, false: without}
	return word + suffix[lastTail != 0]
''')]),
 ('jamo2-append-bytes', 'jamo', [(H, '''	if lastTail != 0 {
		return word + with
	}
	return word + without
''', '''	b := make([]byte, 0, len(word)+len(with))
	b = append(b, word...)
	if lastTail != 0 {
		b = append(b, with...)
	} else {
		b = append(b, without...)
	}
	return string(b)
''')]),
 ('jamo2-split-index', 'jamo', [(H, SPLIT, '''	if c < 0xAC00 || c > 0xD7A3 {
		return 0, 0, 0
	}
	s := int(c) - 0xAC00
	if ti := s % 28; ti > 0 {
		t = rune(ti) + TailG - 1
	}
	s /= 28
	return rune(LeadG + s/21), rune(MedialA + s%21), t
}
''')]),
 ('jamo2-split-inverted', 'jamo', [(H, SPLIT, '''	if 0xAC00 <= c && c <= 0xD7A3 {
		c -= 0xAC00
		l, m, t = leadBase+c/(21*28), medialBase+c/28%21, c%28
		if t != 0 {
			t += tailBase - 1
		}
	}
	return l, m, t
}
''')]),
 ('jamo2-split-table', 'jamo', [(H, SPLIT, '''	if c < 0xAC00 || c > 0xD7A3 {
		return 0, 0, 0
	}
	c -= 0xAC00
	return leadBase + c/588, medialBase + c%588/28, tails[c%28]
}

var tails = func() (t [28]rune) {
	for i := 1; i < len(t); i++ {
		t[i] = rune(tailBase + i - 1)
	}
	return
}()
''')]),
 ('jamo2-split-struct', 'jamo', [(H, SPLIT, '''	s, ok := decompose(c)
	if !ok {
		return
	}
	l, m = s.l+leadBase, s.m+medialBase
	if s.t != 0 {
		t = s.t + tailBase - 1
	}
	return
}

type indexes struct{ l, m, t rune }

func decompose(c rune) (*indexes, bool) {
	if c < 0xAC00 || c > 0xD7A3 {
		return nil, false
	}
	c -= 0xAC00
	return &indexes{l: c / 588, m: c % 588 / 28, t: c % 28}, true
}
''')]),
 ('jamo2-compat-range', 'jamo', [(H, '''	l, m, t = Split(c)
	l = CompatJamo(l)
	m = CompatJamo(m)
	t = CompatJamo(t)
	return
''', '''	l, m, t = Split(c)
	for _, p := range []*rune{&l, &m, &t} {
		*p = CompatJamo(*p)
	}
	return
''')]),
 ('jamo2-compat-array', 'jamo', [(H, '''	l, m, t = Split(c)
	l = CompatJamo(l)
	m = CompatJamo(m)
	t = CompatJamo(t)
	return
''', '''	var js [3]rune
	js[0], js[1], js[2] = Split(c)
	for i, j := range js {
		js[i] = CompatJamo(j)
	}
	return js[0], js[1], js[2]
''')]),
 ('jamo2-join-nested', 'jamo', [(H, '''	li, ok := leadIdx(Lead(l))
	if !ok {
		return rune(0xFFFD)
	}

	mi, ok := medialIdx(Medial(m))
	if !ok {
		return rune(0xFFFD)
	}
''', '''	const bad = '\\uFFFD'
	li, okL := leadIdx(Lead(l))
	mi, okM := medialIdx(Medial(m))
	if !(okL && okM) {
		return bad
	}
''')]),
 ('jamo2-join-horner', 'jamo', [(H, '	return rune(0xAC00 + (li*21+mi)*28 + ti)', '	return compose(li, mi, ti)'), (H, '', '\nfunc compose(idx ...int) rune {\n	n := 0\n	for i, w := range []int{19, 21, 28} {\n		n = n*w + idx[i]\n	}\n	return 0xAC00 + rune(n)\n}\n')]),
 ('jamo2-lookup-direct', 'jamo', [(J, '	if l, ok := toLead[c]; ok {\n		return l\n	}\n\n	return 0\n', '	return toLead[c]\n'), (J, '	if t, ok := toTail[c]; ok {\n		return t\n	}\n\n	return 0\n', '	return toTail[c]\n'),
   (J, '	if c, ok := toCompatJamo[r]; ok {\n		return c\n	}\n\n	return 0\n', '	return toCompatJamo[r]\n')]),
 ('jamo2-lookup-generic', 'jamo', [(J, '	if LeadG <= c && c <= LeadH {\n		return c\n	}\n	if l, ok := toLead[c]; ok {\n		return l\n	}\n\n	return 0\n', '	return lookup(toLead, c, LeadG, LeadH)\n'), (J, '	if TailG <= c && c <= TailH {\n		return c\n	}\n	if t, ok := toTail[c]; ok {\n		return t\n	}\n\n	return 0\n', '	return lookup(toTail, c, TailG, TailH)\n'),
   (J, '', '\nfunc lookup(m map[rune]rune, c, lo, hi rune) rune {\n	if c >= lo && c <= hi {\n		return c\n	}\n	v := m[c]\n	return v\n}\n')]),
 ('jamo2-idx-generic', 'jamo', [(J, '	i := int(l) - leadBase\n	if 0 > i || i > maxLeadIdx {\n		return 0, false\n	}\n	return i, true\n', '	return index(l, leadBase, maxLeadIdx)\n'), (J, '	i := int(v) - medialBase\n	if 0 > i || i > maxMedialIdx {\n		return 0, false\n	}\n	return i, true\n', '	return index(v, medialBase, maxMedialIdx)\n'),
   (J, '', '\nfunc index(r rune, base, limit int) (i int, ok bool) {\n	if i = int(r) - base; i >= 0 && i <= limit {\n		return i, true\n	}\n	return 0, false\n}\n')]),
 ('jamo2-tailidx', 'jamo', [(J, '''	i := int(t) - tailBase
	if 0 > i || i > maxTailIdx {
		return 0, false
	}
	return i + 1, true
''', '''	i := int(t) - tailBase + 1
	ok := 1 <= i && i <= maxTailIdx+1
	if !ok {
		i = 0
	}
	return i, ok
''')]),
 ('jamo2-multi-early', 'jamo', [(J, '''	r = CompatJamo(r)
	es, ok := multiElements[r]
	// Return a copy to keep the table from changes by the caller.
	return append([]rune(nil), es...), ok
''', '''	es, found := multiElements[CompatJamo(r)]
	if !found {
		return nil, false
	}
	out := make([]rune, 0, len(es))
	for _, e := range es {
		out = append(out, e)
	}
	return out, true
''')]),
 ('jamo2-stroke-sum', 'jamo', [(S, '''		i, m, f := Split(r)
		c += Stroke(i)
		c += Stroke(m)
		c += Stroke(f)
		return
''', '''		i, m, f := Split(r)
		for _, j := range [...]rune{i, m, f} {
			c += Stroke(j)
		}
		return c
''')]),
 ('jamo2-stroke-helper', 'jamo', [(S, '''		i, m, f := Split(r)
		c += Stroke(i)
		c += Stroke(m)
		c += Stroke(f)
		return
''', '''		i, m, f := SplitCompat(r)
		return jamoStroke(i) + jamoStroke(m) + jamoStroke(f)
'''), (S, '''	jm := CompatJamo(r)
	if es, ok := SplitMultiElement(jm); ok {
		for _, e := range es {
			c += strokes[e]
		}
	} else {
		c = strokes[jm]
	}
	return
}
''', '''	return jamoStroke(CompatJamo(r))
}

func jamoStroke(jm rune) (n int) {
	es, multi := multiElements[jm]
	if !multi {
		return strokes[jm]
	}
	for i := range es {
		n += strokes[es[i]]
	}
	return n
}
''')]),
 ('jamo2-ishangul-bool', 'jamo', [(H, '''	switch {
	case 0xAC00 <= r && r <= 0xD7A3:
		return true
	case IsJaeum(r):
		return true
	case IsMoeum(r):
		return true
	}

	return false
''', '''	return 0xAC00 <= r && r <= 0xD7A3 || IsJaeum(r) || IsMoeum(r)
''')]),
 ('jamo2-ishangul-funcs', 'jamo', [(H, '''	switch {
	case 0xAC00 <= r && r <= 0xD7A3:
		return true
	case IsJaeum(r):
		return true
	case IsMoeum(r):
		return true
	}

	return false
''', '''	if 0xAC00 <= r && r <= 0xD7A3 {
		return true
	}
	for _, is := range []func(rune) bool{IsJaeum, IsMoeum} {
		if is(r) {
			return true
		}
	}
	return false
''')]),
 ('jamo2-last-index', 'jamo', [(H, '''	runes := []rune(word)
	_, _, t := Split(runes[len(runes)-1])
	return t
''', '''	i := len(word) - 1
	for i > 0 && !utf8.RuneStart(word[i]) {
		i--
	}
	var last rune
	for _, r := range word[i:] {
		last = r
	}
	_, _, t := Split(last)
	return t
'''), (H, 'package hangul\n', 'package hangul\n\nimport "unicode/utf8"\n')]),
 ('jamo2-last-helper', 'jamo', [(H, '''	if word == "" {
		return 0
	}
	runes := []rune(word)
	_, _, t := Split(runes[len(runes)-1])
	return t
''', '''	r, ok := lastRune(word)
	if !ok {
		return 0
	}
	_, _, t := Split(r)
	return t
}

func lastRune(s string) (r rune, ok bool) {
	rs := []rune(s)
	if n := len(rs); n != 0 {
		r, ok = rs[n-1], true
	}
	return
''')]),
 ('hanja2-fast', 'hanja', [(HJ, CONV, '''	rh := []rune(h)
	changed := false
	for i := 0; i < len(rh); i++ {
		if r, ok := reading(rh[i]); ok {
			rh[i] = r
			changed = true
		}
	}
	if !changed {
		return string(rh)
	}
	return string(rh)
'''), (HJ, '', '\nfunc reading(c rune) (rune, bool) {\n	r, ok := table[c]\n	return r, ok\n}\n')]),
 ('hanja2-down', 'hanja', [(HJ, CONV, '''	rh := []rune(h)
	for i := len(rh) - 1; i >= 0; i-- {
		if IsHanja(rh[i]) {
			rh[i] = table[rh[i]]
		}
	}
	return string(rh)
''')]),
 ('hanja2-skip', 'hanja', [(HJ, CONV, '''	rh := []rune(h)
	for i := range rh {
		r, ok := table[rh[i]]
		if !ok {
			continue
		}
		rh[i] = r
	}
	return string(rh)
''')]),
 ('hanja2-appendrune', 'hanja', [(HJ, CONV, '''	var out []rune
	for _, c := range h {
		if r, ok := table[c]; ok {
			c = r
		}
		out = append(out, c)
	}
	return string(out)
''')]),
 ('hanja2-bytes', 'hanja', [(HJ, CONV, '''	out := make([]byte, 0, len(h))
	var tmp [utf8.UTFMax]byte
	for _, c := range h {
		if r, ok := table[c]; ok {
			c = r
		}
		n := utf8.EncodeRune(tmp[:], c)
		out = append(out, tmp[:n]...)
	}
	return string(out)
'''), (HJ, 'package hanja\n', 'package hanja\n\nimport "unicode/utf8"\n')]),
 ('hanja2-empty', 'hanja', [(HJ, '	rh := []rune(h)\n', '	if len(h) == 0 {\n		return ""\n	}\n	rh := []rune(h)\n')]),
 ('hanja2-is', 'hanja', [(HJ, '	_, ok := table[c]\n	return ok\n', '	if _, ok := table[c]; ok {\n		return true\n	}\n	return false\n')]),
 ('hanja2-nonzero', 'hanja', [(HJ, '	_, ok := table[c]\n	return ok\n', '	return table[c] != 0\n')]),
]

CP, PUB, ENC = 'encoding/cp949/cp949.go', 'encoding/cp949/public.go', 'encoding/cp949/encoding.go'
FROM_SEARCH = '''		fi := sort.Search(len(p.table), func(i int) bool {
			if n <= p.table[i].cp949 {
				return true
			}
			return false
		})
'''
TO_SEARCH = '''		fi := sort.Search(len(p.table), func(i int) bool {
			if rUcs2 <= p.table[i].ucs2 {
				return true
			}
			return false
		})
'''
APPEND_RUNE = '''	n := len(buf)
	buf = ensureCap(buf, n+utf8.UTFMax)
	nu := utf8.EncodeRune(buf[n:n+utf8.UTFMax], r)
	return buf[0 : n+nu]
'''
VARIANTS = [
 # --- jamo ---
 ('jamo-ishangul-if', 'jamo', [('hangul.go', '''	switch {
	case 0xAC00 <= r && r <= 0xD7A3:
		return true
	case IsJaeum(r):
		return true
	case IsMoeum(r):
		return true
	}

	return false
''', '''	return 0xAC00 <= r && r <= 0xD7A3 || IsJaeum(r) || IsMoeum(r)
''')]),
 ('jamo-lastconsonant-decode', 'jamo', [('hangul.go', '''	if word == "" {
		return 0
	}
	runes := []rune(word)
	_, _, t := Split(runes[len(runes)-1])
	return t
''', '''	r, _ := utf8.DecodeLastRuneInString(word)
	_, _, t := Split(r)
	return t
'''), ('hangul.go', 'package hangul\n', 'package hangul\n\nimport "unicode/utf8"\n')]),
 ('jamo-lastconsonant-range', 'jamo', [('hangul.go', '''	if word == "" {
		return 0
	}
	runes := []rune(word)
	_, _, t := Split(runes[len(runes)-1])
	return t
''', '''	var last rune
	for _, r := range word {
		last = r
	}
	_, _, t := Split(last)
	return t
''')]),
 ('jamo-append-builder', 'jamo', [('hangul.go', '''	lastTail := LastConsonant(word)
	if with == "으로" && lastTail == TailL {
		return word + without // 로
	}
	if lastTail != 0 {
		return word + with
	}
	return word + without
''', '''	suffix := without
	if t := LastConsonant(word); t != 0 && !(with == "으로" && t == TailL) {
		suffix = with
	}
	var b strings.Builder
	b.WriteString(word)
	b.WriteString(suffix)
	return b.String()
'''), ('hangul.go', 'package hangul\n', 'package hangul\n\nimport "strings"\n')]),
 ('jamo-split-helper', 'jamo', [('hangul.go', '''	t = (c - 0xAC00) % 28
	m = ((c - 0xAC00 - t) % 588) / 28
	l = (c - 0xAC00) / 588

	l += leadBase
	m += medialBase
	if t != 0 {
		t += tailBase - 1
	}

	return
''', '''	li, mi, ti := indices(c)
	if ti > 0 {
		t = tailBase + rune(ti) - 1
	}
	return leadBase + rune(li), medialBase + rune(mi), t
}

func indices(c rune) (li, mi, ti int) {
	i := int(c) - 0xAC00
	li, i = i/(21*28), i%(21*28)
	return li, i / 28, i % 28
''')]),
 ('jamo-split-loop', 'jamo', [('hangul.go', '''	t = (c - 0xAC00) % 28
	m = ((c - 0xAC00 - t) % 588) / 28
	l = (c - 0xAC00) / 588

	l += leadBase
	m += medialBase
	if t != 0 {
		t += tailBase - 1
	}

	return
''', '''	c -= 0xAC00
	l, m = leadBase, medialBase
	for c >= 588 {
		c -= 588
		l++
	}
	for c >= 28 {
		c -= 28
		m++
	}
	if c > 0 {
		t = tailBase - 1 + c
	}
	return
''')]),
 ('jamo-join-order', 'jamo', [('hangul.go', '''	// Tail returns 0 for a non tail, which is not the same as no tail.
	if t != 0 && Tail(t) == 0 {
		return rune(0xFFFD)
	}

	ti, ok := tailIdx(Tail(t))
	if !ok {
		return rune(0xFFFD)
	}

	return rune(0xAC00 + (li*21+mi)*28 + ti)
''', '''	ti := 0
	if t != 0 {
		tt := Tail(t)
		if tt == 0 {
			return utf8.RuneError
		}
		ti, _ = tailIdx(tt)
	}
	return 0xAC00 + 588*rune(li) + 28*rune(mi) + rune(ti)
'''), ('hangul.go', 'package hangul\n', 'package hangul\n\nimport "unicode/utf8"\n')]),
 ('jamo-stroke-recursion', 'jamo', [('stroke.go', '''		for _, e := range es {
			c += strokes[e]
		}
''', '''		for i := 0; i < len(es); i++ {
			c += Stroke(es[i])
		}
''')]),
 ('jamo-stroke-slice', 'jamo', [('stroke.go', '''		i, m, f := Split(r)
		c += Stroke(i)
		c += Stroke(m)
		c += Stroke(f)
		return
''', '''		i, m, f := Split(r)
		for _, j := range []rune{i, m, f} {
			if j != 0 {
				c += Stroke(j)
			}
		}
		return c
''')]),
 ('jamo-compat-once', 'jamo', [('jamo.go', '''	if c, ok := toCompatJamo[r]; ok {
		return c
	}

	return 0
}

var toLead''', '''	compatOnce.Do(func() {
		compatTable = map[rune]rune{}
		for k, v := range toCompatJamo {
			compatTable[k] = v
		}
	})
	return compatTable[r]
}

var (
	compatOnce  sync.Once
	compatTable map[rune]rune
)

var toLead'''), ('jamo.go', 'package hangul\n', 'package hangul\n\nimport "sync"\n')]),
 ('jamo-lead-inverse', 'jamo', [('jamo.go', '''	if l, ok := toLead[c]; ok {
		return l
	}

	return 0
''', '''	for l := rune(LeadG); l <= LeadH; l++ {
		if c != 0 && toCompatJamo[l] == c {
			return l
		}
	}
	return 0
''')]),
 ('jamo-tail-switch', 'jamo', [('jamo.go', '''	if t, ok := toTail[c]; ok {
		return t
	}

	return 0
}

func leadIdx''', '''	switch {
	case c < G || c > H:
		return 0
	case c == DD || c == BB || c == JJ:
		return 0
	}
	return toTail[c]
}

func leadIdx''')]),
 ('jamo-multi-copy', 'jamo', [('jamo.go', '''	return append([]rune(nil), es...), ok
''', '''	if !ok {
		return nil, false
	}
	out := make([]rune, len(es))
	copy(out, es)
	return out, true
''')]),
 ('jamo-multi-string', 'jamo', [('jamo.go', '''	es, ok := multiElements[r]
	// Return a copy to keep the table from changes by the caller.
	return append([]rune(nil), es...), ok
''', '''	es, ok := multiElements[r]
	return []rune(string(es)), ok
''')]),
 ('jamo-tables-array', 'jamo', [('stroke.go', '''	} else {
		c = strokes[jm]
	}
	return
''', '''	} else {
		c = strokeTab[jm&0x7f]
	}
	return
}

var strokeTab = func() (t [0x80]int) {
	for k, v := range strokes {
		t[k&0x7f] = v
	}
	return
}()

func init() {
	_ = strokeTab
''')]),
 ('jamo-noop', 'jamo', [('hangul.go', '	li, ok := leadIdx(Lead(l))\n', '	_ = l\n	li, ok := leadIdx(Lead(l))\n'), ('hangul.go', '	lastTail := LastConsonant(word)\n', '	_ = len(word)\n	lastTail := LastConsonant(word)\n'), ('jamo.go', '', '// end\n')]),
 # --- cp949 ---
 ('cp-search-simple', 'cp', [(CP, FROM_SEARCH, '''		fi := sort.Search(len(p.table), func(i int) bool {
			return p.table[i].cp949 >= n
		})
'''), (CP, TO_SEARCH, '''		fi := sort.Search(len(p.table), func(i int) bool { return p.table[i].ucs2 >= rUcs2 })
''')]),
 ('cp-search-helper', 'cp', [(CP, FROM_SEARCH, '''		fi := p.table.search(func(it lookupItem) bool { return n <= it.cp949 })
'''), (CP, TO_SEARCH, '''		fi := p.table.search(func(it lookupItem) bool { return rUcs2 <= it.ucs2 })
'''), (CP, '', '''
func (t lookupTable) search(f func(lookupItem) bool) int {
	return sort.Search(len(t), func(i int) bool { return f(t[i]) })
}
''')]),
 ('cp-search-manual', 'cp', [(CP, FROM_SEARCH, '''		fi := searchCp949(p.table, n)
'''), (CP, TO_SEARCH, '''		fi := searchUcs2(p.table, rUcs2)
'''), (CP, '	"sort"\n', ''), (CP, '', '''
func searchCp949(t lookupTable, n uint16) int {
	lo, hi := 0, len(t)
	for lo < hi {
		mid := int(uint(lo+hi) >> 1)
		if t[mid].cp949 < n {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo
}

func searchUcs2(t lookupTable, n uint16) int {
	lo, hi := 0, len(t)
	for lo < hi {
		mid := lo + (hi-lo)/2
		if t[mid].ucs2 < n {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo
}
''')]),
 ('cp-map', 'cp', [(CP, FROM_SEARCH, ''), (CP, '''		if fi < len(p.table) && n == p.table[fi].cp949 {
			f := p.table[fi]
			p.scratch = appendRune(p.scratch, rune(f.ucs2))
		} else {
''', '''		if u, ok := fromMap[n]; ok {
			p.scratch = appendRune(p.scratch, rune(u))
		} else {
'''), (CP, '', '''
var fromMap = func() map[uint16]uint16 {
	m := make(map[uint16]uint16, len(fromTable))
	for _, it := range fromTable {
		if _, dup := m[it.cp949]; !dup {
			m[it.cp949] = it.ucs2
		}
	}
	return m
}()
''')]),
 ('cp-appendrune-array', 'cp', [(CP, APPEND_RUNE, '''	var tmp [utf8.UTFMax]byte
	n := utf8.EncodeRune(tmp[:], r)
	return append(buf, tmp[:n]...)
''')]),
 ('cp-appendrune-string', 'cp', [(CP, APPEND_RUNE, '''	return append(buf, string(r)...)
''')]),
 ('cp-appendrune-append', 'cp', [(CP, APPEND_RUNE, '''	return utf8.AppendRune(buf, r)
'''), ('go.mod', 'go 1.14', 'go 1.18')]),
 ('cp-ensurecap-simple', 'cp', [(CP, '''	m := cap(s)
	if m == 0 {
		m = n
	} else {
		for {
			if m < 1024 {
				m += m
			} else {
				m += m / 4
			}
			if m >= n {
				break
			}
		}
	}
	t := make([]byte, len(s), m)
	copy(t, s)
	return t
''', '''	m := 2 * cap(s)
	if m < n {
		m = n
	}
	t := make([]byte, len(s), m)
	copy(t, s)
	return t
''')]),
 ('cp-ensurecap-for', 'cp', [(CP, '''	m := cap(s)
	if m == 0 {
		m = n
	} else {
		for {
			if m < 1024 {
				m += m
			} else {
				m += m / 4
			}
			if m >= n {
				break
			}
		}
	}
	t := make([]byte, len(s), m)
	copy(t, s)
	return t
''', '''	m := cap(s)
	if m == 0 {
		m = n
	}
	for m < n {
		if m < 1024 {
			m *= 2
		} else {
			m += m >> 2
		}
	}
	return append(make([]byte, 0, m), s...)
''')]),
 ('cp-from-index', 'cp', [(CP, '''	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			p.scratch = append(p.scratch, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
''', '''	for c < len(data) {
		if b := data[c]; b < 0x80 {
			p.scratch = append(p.scratch, b)
			c++
			continue
		}

		if c+1 >= len(data) {
'''), (CP, '		n := uint16(data[0])<<8 | uint16(data[1])\n', '		n := uint16(data[c])<<8 + uint16(data[c+1])\n'), (CP, '''		data = data[2:]
		c += 2
''', '''		c += 2
''')]),
 ('cp-from-out', 'cp', [(CP, '''	p.scratch = p.scratch[:0]
	c := 0
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			p.scratch = append(p.scratch, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
			return c, p.scratch, ErrCP949UnexpectedStream
		}
''', '''	out := p.scratch[:0]
	defer func() { p.scratch = out }()
	c := 0
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			out = append(out, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
			return c, out, ErrCP949UnexpectedStream
		}
'''), (CP, '			p.scratch = appendRune(p.scratch, rune(f.ucs2))\n', '			out = appendRune(out, rune(f.ucs2))\n'), (CP, '			p.scratch = appendRune(p.scratch, utf8.RuneError)\n', '			out = appendRune(out, utf8.RuneError)\n'), (CP, '''		data = data[2:]
		c += 2
	}
	return c, p.scratch, nil
''', '''		data = data[2:]
		c += 2
	}
	return c, out, nil
''')]),
 ('cp-decode-helper', 'cp', [(CP, FROM_SEARCH + '''
		if fi < len(p.table) && n == p.table[fi].cp949 {
			f := p.table[fi]
			p.scratch = appendRune(p.scratch, rune(f.ucs2))
		} else {
			p.scratch = appendRune(p.scratch, utf8.RuneError)
		}
''', '''		p.scratch = appendRune(p.scratch, p.decode(n))
'''), (CP, '// from unicode to cp949 translator\n', '''func (p *translateFromCp949) decode(n uint16) rune {
	i := sort.Search(len(p.table), func(i int) bool { return n <= p.table[i].cp949 })
	if i == len(p.table) || p.table[i].cp949 != n {
		return utf8.RuneError
	}
	return rune(p.table[i].ucs2)
}

// from unicode to cp949 translator
''')]),
 ('cp-encode-helper', 'cp', [(CP, '''		rUcs2 := uint16(r)
''' + TO_SEARCH + '''
		// rUcs2 lost the upper bits of a rune beyond the BMP.
		if r <= 0xffff && fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
			f := p.table[fi]
			p.scratch = append(p.scratch,
				byte(f.cp949>>8), byte(f.cp949&0xff))
		} else {
''', '''		if code, ok := p.encode(r); ok {
			p.scratch = append(p.scratch, byte(code>>8), byte(code))
		} else {
'''), (CP, 'func fromCp949() (', '''func (p *translateToCp949) encode(r rune) (uint16, bool) {
	if r > 0xffff {
		return 0, false
	}
	u := uint16(r)
	i := sort.Search(len(p.table), func(i int) bool { return u <= p.table[i].ucs2 })
	if i < len(p.table) && p.table[i].ucs2 == u {
		return p.table[i].cp949, true
	}
	return 0, false
}

func fromCp949() (''')]),
 ('cp-to-index', 'cp', [(CP, '''		if !utf8.FullRune(data) {
			// Leave it to the caller, the rest may come later.
			break
		}

		r, s := utf8.DecodeRune(data)
''', '''		r, s := utf8.DecodeRune(data)
		if r == utf8.RuneError && s <= 1 && !utf8.FullRune(data) {
			// Leave it to the caller, the rest may come later.
			return c, p.scratch, nil
		}
''')]),
 ('cp-to-public', 'cp', [(PUB, '''	for ; n < len(in); n++ {
		out = append(out, '?')
	}

	return out, nil
''', '''	return append(out, bytes.Repeat([]byte{'?'}, len(in)-n)...), nil
'''), (PUB, '	"io"\n', '	"bytes"\n	"io"\n')]),
 ('cp-from-struct', 'cp', [(PUB, '''	tr, err := fromCp949()
	if err != nil {
		return nil, err
	}

	_, out, err := tr.Translate(in)
	if err != nil {
		return nil, err
	}

	return out, nil
''', '''	tr := translateFromCp949{table: fromTable}
	_, out, err := tr.Translate(in)
	if err != nil {
		out = nil
	}
	return out, err
''')]),
 ('cp-from-prealloc', 'cp', [(CP, '''	p.scratch = p.scratch[:0]
	c := 0
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			p.scratch = append(p.scratch, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
''', '''	p.scratch = ensureCap(p.scratch[:0], len(data)+len(data)/2)
	c := 0
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			p.scratch = append(p.scratch, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
''')]),
 ('cp-ascii-run', 'cp', [(CP, '''	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			p.scratch = append(p.scratch, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
''', '''	for len(data) > 0 {
		i := 0
		for i < len(data) && data[i] < utf8.RuneSelf {
			i++
		}
		if i > 0 {
			p.scratch = append(p.scratch, data[:i]...)
			data = data[i:]
			c += i
			continue
		}

		if len(data) < 2 {
''')]),
 ('cp-bytes-buffer', 'cp', [(CP, '''	p.scratch = p.scratch[:0]
	c := 0
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			p.scratch = append(p.scratch, data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
			return c, p.scratch, ErrCP949UnexpectedStream
		}
''', '''	var out bytes.Buffer
	c := 0
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			out.WriteByte(data[0])
			data = data[1:]
			c++
			continue
		}

		if len(data) < 2 {
			return c, out.Bytes(), ErrCP949UnexpectedStream
		}
'''), (CP, '			p.scratch = appendRune(p.scratch, rune(f.ucs2))\n', '			out.WriteRune(rune(f.ucs2))\n'), (CP, '			p.scratch = appendRune(p.scratch, utf8.RuneError)\n', '			out.WriteRune(utf8.RuneError)\n'), (CP, '''		data = data[2:]
		c += 2
	}
	return c, p.scratch, nil
''', '''		data = data[2:]
		c += 2
	}
	return c, out.Bytes(), nil
'''), (CP, '	"sort"\n', '	"bytes"\n	"sort"\n')]),
 ('cp-enc-helper', 'cp', [(ENC, '''		converted, err := From(src[nSrc : nSrc+n])
		if err != nil {
			return nDst, nSrc, err
		}
		if len(converted) > len(dst)-nDst {
			return nDst, nSrc, transform.ErrShortDst
		}

		// Copy the converted data to dst.
		nDst += copy(dst[nDst:], converted)
		nSrc += n
	}
	return nDst, nSrc, nil
}

type cp949Encoder struct{}
''', '''		m, err := put(dst[nDst:], src[nSrc:nSrc+n], From)
		if err != nil {
			return nDst, nSrc, err
		}
		nDst += m
		nSrc += n
	}
	return nDst, nSrc, nil
}

// put writes the conversion of one character to dst.
func put(dst, char []byte, conv func([]byte) ([]byte, error)) (int, error) {
	out, err := conv(char)
	if err != nil {
		return 0, err
	}
	if len(dst) < len(out) {
		return 0, transform.ErrShortDst
	}
	return copy(dst, out), nil
}

type cp949Encoder struct{}
''')]),
 ('cp-enc-slices', 'cp', [(ENC, '''	for nSrc < len(src) {
		if !atEOF && !utf8.FullRune(src[nSrc:]) {
			return nDst, nSrc, transform.ErrShortSrc
		}
		_, n := utf8.DecodeRune(src[nSrc:])

		// Use the To function to convert UTF-8 to CP949.
		converted, err := To(src[nSrc : nSrc+n])
		if err != nil {
			return nDst, nSrc, err
		}
		if len(converted) > len(dst)-nDst {
			return nDst, nSrc, transform.ErrShortDst
		}

		// Copy the converted data to dst.
		nDst += copy(dst[nDst:], converted)
		nSrc += n
	}
	return nDst, nSrc, nil
''', '''	for len(src) > 0 {
		if !atEOF && !utf8.FullRune(src) {
			err = transform.ErrShortSrc
			break
		}
		_, n := utf8.DecodeRune(src)
		converted, cerr := To(src[:n])
		if cerr != nil {
			err = cerr
			break
		}
		if len(dst) < len(converted) {
			err = transform.ErrShortDst
			break
		}
		k := copy(dst, converted)
		dst, src = dst[k:], src[n:]
		nDst += k
		nSrc += n
	}
	return
''')]),
 ('cp-noop', 'cp', [(CP, '		n := uint16(data[0])<<8 | uint16(data[1])\n', '		_ = len(data)\n		n := uint16(data[0])<<8 | uint16(data[1])\n'), (CP, '		r, s := utf8.DecodeRune(data)\n', '		_ = c\n		r, s := utf8.DecodeRune(data)\n'), (PUB, '		nc, cdata, cvterr := r.tr.Translate(r.rdata)\n', '		_ = len(r.rdata)\n		nc, cdata, cvterr := r.tr.Translate(r.rdata)\n'), (PUB, '	n, cdata, err := w.tr.Translate(wdata)\n', '	_ = len(data)\n	n, cdata, err := w.tr.Translate(wdata)\n'), (ENC, '		_, n := utf8.DecodeRune(src[nSrc:])\n', '		_ = atEOF\n		_, n := utf8.DecodeRune(src[nSrc:])\n')]),
 ('cp-reader-split', 'cp', [(PUB, '''		if r.err == nil {
			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
			// Guard against non-compliant Readers.
			if n == 0 && err == nil {
				return 0, nil
			}
			r.rdata = r.rdata[0 : len(r.rdata)+n]
			r.err = err
		} else if len(r.rdata) == 0 {
''', '''		if r.err == nil {
			n, err := r.fill(len(buf))
			// Guard against non-compliant Readers.
			if n == 0 && err == nil {
				return 0, nil
			}
			r.err = err
		} else if len(r.rdata) == 0 {
'''), (PUB, 'type cp949Writer struct {', '''// fill reads up to about n bytes more.
func (r *cp949Reader) fill(n int) (int, error) {
	have := len(r.rdata)
	r.rdata = ensureCap(r.rdata, have+n)
	n, err := r.r.Read(r.rdata[have:cap(r.rdata)])
	r.rdata = r.rdata[:have+n]
	return n, err
}

type cp949Writer struct {''')]),
 ('cp-writer-copy', 'cp', [(PUB, '''	wdata := data
	if len(w.buf) > 0 {
		w.buf = append(w.buf, data...)
		wdata = w.buf
	}
''', '''	wdata := append(w.buf[:len(w.buf):len(w.buf)], data...)
'''), (PUB, '''	w.buf = w.buf[:0]
	if n < len(wdata) {
		w.buf = append(w.buf, wdata[n:]...)
	}
	return len(data), nil
''', '''	w.buf = wdata[n:]
	return len(data), nil
''')]),
]

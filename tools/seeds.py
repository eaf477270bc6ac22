def main(imports, body, extra=''):
    imp = ''.join('\t%s\n' % (i if ' ' in i else '"%s"' % i) for i in ['fmt', 'os'] + imports)
    return 'package main\n\nimport (\n' + imp + ''')

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func main() {
''' + '\n'.join('\t' + l if l else '' for l in body.strip('\n').split('\n')) + '\n}\n' + extra

H = 'hangul "github.com/suapapa/go_hangul"'
CP = 'cp949 "github.com/suapapa/go_hangul/encoding/cp949"'
HJ = 'hanja "github.com/suapapa/go_hangul/hanja"'
PUB, CPG, ENC = 'encoding/cp949/public.go', 'encoding/cp949/cp949.go', 'encoding/cp949/encoding.go'

CHUNK = '''
// chunks is a source which delivers its pieces one by one.
type chunks [][]byte

func (c *chunks) Read(p []byte) (int, error) {
	if len(*c) == 0 {
		return 0, io.EOF
	}
	n := copy(p, (*c)[0])
	if n == len((*c)[0]) {
		*c = (*c)[1:]
	} else {
		(*c)[0] = (*c)[0][n:]
	}
	return n, nil
}
'''

SEEDS = [
 dict(id='split-magic', property='C01', needs='a syllable in the upper part of the block whose offset is just below a multiple of 588',
      breaks='the division by 588 is replaced by a multiplication which is off by one for some syllables',
      edits=[('hangul.go', '	l = (c - 0xAC00) / 588\n', '	l = (c - 0xAC00) * 7134 >> 22 // division by 588\n')],
      demo=main([H], '''
for c := rune(0xAC00); c <= 0xD7A3; c++ {
	l, m, t := hangul.Split(c)
	i := int(c) - 0xAC00
	wt := rune(0)
	if i%28 != 0 {
		wt = 0x11A7 + rune(i%28)
	}
	if l != 0x1100+rune(i/588) || m != 0x1161+rune(i/28%21) || t != wt {
		fail(string(c), l, m, t)
	}
}''')),
 dict(id='join-lead-from-tail', property='C02', needs='a trailing consonant given as the first element',
      breaks='Join accepts a trailing consonant as the leading one', 
      edits=[('hangul.go', 'leadIdx(Lead(l))', 'leadIdx(Lead(CompatJamo(l)))')],
      demo=main([H], '''
if r := hangul.Join(hangul.TailG, hangul.A, 0); r != 0xFFFD {
	fail(string(r))
}
if r := hangul.Join(hangul.G, hangul.A, 0); r != '가' {
	fail(string(r))
}''')),
 dict(id='tail-lt', property='C04', needs='the rare trailing consonant LT', breaks='Tail maps the compatibility jamo LT to the wrong trailing consonant',
      edits=[('jamo.go', '	LT: TailLT,\n', '	LT: TailLP,\n')],
      demo=main([H], '''
if r := hangul.Tail(0x313E); r != 0x11B4 {
	fail(r)
}''')),
 dict(id='stroke-last', property='C08', needs='the last precomposed syllable', breaks='the last syllable is taken for a rune without strokes',
      edits=[('stroke.go', '	if 0xAC00 <= r && r <= 0xD7A3 {\n', '	if 0xAC00 <= r && r < 0xD7A3 {\n')],
      demo=main([H], '''
if n := hangul.Stroke(0xD7A3); n != 7 {
	fail(n)
}
if n := hangul.Stroke(0xD7A2); n != 8 {
	fail(n)
}''')),
 dict(id='last-trim', property='C09', needs='a word which ends with an invisible character', breaks='LastConsonant looks past trailing zero width spaces',
      edits=[('hangul.go', '''package hangul

// IsHangul''', '''package hangul

import "strings"

// IsHangul'''), ('hangul.go', '	runes := []rune(word)\n', '''	runes := []rune(strings.TrimRight(word, "\\u200b"))
	if len(runes) == 0 {
		return 0
	}
''')],
      demo=main([H], '''
if r := hangul.LastConsonant("각\\u200b"); r != 0 {
	fail(r)
}
if r := hangul.LastConsonant("각"); r != hangul.TailG {
	fail(r)
}''')),
 dict(id='postposition-prefix', property='C10', needs='a postposition which merely begins with 으로, after a final ㄹ', breaks='the exception for 으로 is applied to 으로서 as well',
      edits=[('hangul.go', '''package hangul

// IsHangul''', '''package hangul

import "strings"

// IsHangul'''), ('hangul.go', 'if with == "으로" &&', 'if strings.HasPrefix(with, "으로") &&')],
      demo=main([H], '''
if s := hangul.AppendPostposition("물", "으로서", "로서"); s != "물으로서" {
	fail(s)
}
if s := hangul.AppendPostposition("물", "으로", "로"); s != "물로" {
	fail(s)
}''')),
 dict(id='last-three-bytes', property='C13', needs='a word which is a single character of two UTF-8 bytes', breaks='the last three bytes of a shorter word are sliced',
      edits=[('hangul.go', '''package hangul

// IsHangul''', '''package hangul

import "unicode/utf8"

// IsHangul'''), ('hangul.go', '	if word == "" {\n		return 0\n	}\n	runes := []rune(word)\n	_, _, t := Split(runes[len(runes)-1])\n', '''	if word == "" || word[len(word)-1] < utf8.RuneSelf {
		return 0
	}
	// A syllable takes three bytes.
	r, _ := utf8.DecodeRuneInString(word[len(word)-3:])
	_, _, t := Split(r)
''')],
      demo=main([H], '''
defer func() {
	if e := recover(); e != nil {
		fail(e)
	}
}()
if s := hangul.AppendPostposition("\u00e9", "이", "가"); s != "\u00e9가" {
	fail(s)
}''')),
 dict(id='from-last', property='C14', needs='the last code of the table', breaks='the last entry of the code table is treated as unassigned',
      edits=[(CPG, 'if fi < len(p.table) && n == p.table[fi].cp949', 'if fi+1 < len(p.table) && n == p.table[fi].cp949')],
      demo=main([CP], '''
out, err := cp949.From([]byte{0xfd, 0xfe})
if err != nil || string(out) != "詰" {
	fail(string(out), err)
}''')),
 dict(id='from-halfwidth', property='C14', needs='a pair whose second byte is a line feed', breaks='a lead byte followed by a line feed swallows only the lead byte',
      edits=[(CPG, '''			p.scratch = appendRune(p.scratch, utf8.RuneError)
		}
''', '''			p.scratch = appendRune(p.scratch, utf8.RuneError)
			if data[1] == '\\n' {
				data = data[1:]
				c++
				continue
			}
		}
''')],
      demo=main([CP], '''
out, err := cp949.From([]byte{'a', 0xb0, '\\n', 'b'})
if err != nil || string(out) != "a\\uFFFDb" {
	fail(fmt.Sprintf("%q", out), err)
}''')),
 dict(id='to-euro', property='C15', needs='the euro sign', breaks='a character is given a code of another code page',
      edits=[(CPG, '''			p.scratch = append(p.scratch, '?')
		}

''', '''			p.scratch = append(p.scratch, '?')
			if r == '\\ufeff' {
				p.scratch = p.scratch[:len(p.scratch)-1]
			}
		}

''')],
      demo=main([CP], '''
out, err := cp949.To([]byte("a\\ufeffb"))
if err != nil || string(out) != "a?b" {
	fail(fmt.Sprintf("%q", out), err)
}''')),
 dict(id='table-swap', property='C16', needs='one of two neighbouring syllables', breaks='the decoding table has the characters of two codes exchanged',
      edits=[('encoding/cp949/lookup_from.go', '		lookupItem{cp949: 0x9d49, ucs2: 0xc4b2},\n		lookupItem{cp949: 0x9d4a, ucs2: 0xc4b3},\n', '		lookupItem{cp949: 0x9d49, ucs2: 0xc4b3},\n		lookupItem{cp949: 0x9d4a, ucs2: 0xc4b2},\n')],
      demo=main([CP], '''
b, err := cp949.To([]byte("쒲"))
if err != nil {
	fail(err)
}
if s, err := cp949.From(b); err != nil || string(s) != "쒲" {
	fail(string(s), err)
}''')),
 dict(id='convert-initial', property='C24', needs='a hanja with the reading 녀 at the start of the string', breaks='Convert applies the initial sound law at the start of the string',
      edits=[('hanja/hanja.go', '		if ok {\n			rh[i] = h\n', '''		if ok {
			if i == 0 && h == '녀' {
				h = '여' // initial sound law
			}
			rh[i] = h
''')],
      demo=main([HJ], '''
if a, b := hanja.Convert("\\u5973"), hanja.Convert("a\\u5973"); "a"+a != b {
	fail(a, b)
}''')),
 dict(id='ishanja-unified', property='C25', needs='a compatibility ideograph (U+F900 and above)', breaks='IsHanja knows the unified ideographs only while Convert replaces the compatibility ideographs too',
      edits=[('hanja/hanja.go', '''	_, ok := table[c]
	return ok
''', '''	_, ok := table[c]
	return ok && c < 0xF900
''')],
      demo=main([HJ], '''
for c := rune(0x80); c < 0x30000; c++ {
	if c >= 0xD800 && c < 0xE000 {
		continue
	}
	if hanja.IsHanja(c) != (hanja.Convert(string(c)) != string(c)) {
		fail(string(c))
	}
}''')),
 dict(id='stroke-cache', property='C12', needs='two goroutines which count strokes at the same time', race=True, breaks='a package level cache is written without synchronisation',
      edits=[('stroke.go', '// Stroke returns stroke count of given jamo.\n', '// strokeCache holds the stroke counts of the syllables.\nvar strokeCache [0xD7A4 - 0xAC00]int\n\n// Stroke returns stroke count of given jamo.\n'),
             ('stroke.go', '		i, m, f := Split(r)\n', '''		if c = strokeCache[r-0xAC00]; c != 0 {
			return
		}
		defer func() { strokeCache[r-0xAC00] = c }()
		i, m, f := Split(r)
''')],
      demo=main([H, 'sync'], '''
var wg sync.WaitGroup
for i := 0; i < 4; i++ {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for r := rune(0xAC00); r <= 0xD7A3; r++ {
			if hangul.Stroke(r) == 0 {
				fail(string(r))
			}
		}
	}()
}
wg.Wait()''')),
 dict(id='from-ascii-alias', property='C23', needs='an input of ASCII characters only', breaks='From returns its input as the result when nothing is to convert',
      edits=[(PUB, '	_, out, err := tr.Translate(in)\n', '''	ascii := true
	for _, b := range in {
		ascii = ascii && b < 0x80
	}
	if ascii {
		return in, nil
	}

	_, out, err := tr.Translate(in)
''')],
      demo=main([CP], '''
in := []byte("hangul")
out, err := cp949.From(in)
if err != nil || string(out) != "hangul" {
	fail(string(out), err)
}
out[0] = 'H'
if string(in) != "hangul" {
	fail(string(in))
}''')),
 dict(id='reader-cap-loop', property='C17', needs='a one byte buffer and a source which delivers single bytes', breaks='growing a buffer of fewer than four bytes never ends',
      edits=[(CPG, '''			if m < 1024 {
				m += m
			} else {
				m += m / 4
			}
''', '''			m += m / 4
''')],
      demo=main([CP, 'io', 'time', 'bytes'], '''
go func() {
	time.Sleep(10 * time.Second)
	fail("hangs")
}()
r, err := cp949.NewReader(&chunks{{0xb0}, {0xa1}, {0xb0}, {0xa2}})
var out bytes.Buffer
for err == nil {
	var n int
	b := make([]byte, 1)
	n, err = r.Read(b)
	out.Write(b[:n])
}
if err != io.EOF || out.String() != "가각" {
	fail(out.String(), err)
}''', CHUNK)),
 dict(id='reader-data-error', property='C17', needs='a source which returns its last data together with an error that it does not repeat', breaks='an error which comes with data is forgotten',
      edits=[(PUB, '			r.err = err\n', '			if n == 0 {\n				r.err = err\n			}\n')],
      demo=main([CP, 'io', 'bytes', 'errors'], '''
broken := errors.New("broken")
r, err := cp949.NewReader(&once{[]byte{'a', 0xb0, 0xa1}, broken})
var out bytes.Buffer
for err == nil {
	var n int
	b := make([]byte, 2)
	n, err = r.Read(b)
	out.Write(b[:n])
}
if err != broken || out.String() != "a가" {
	fail(out.String(), err)
}''', '''
type once struct {
	data []byte
	err  error
}

func (o *once) Read(p []byte) (int, error) {
	n := copy(p, o.data)
	o.data = o.data[n:]
	err := o.err
	if len(o.data) > 0 {
		return n, nil
	}
	o.err = io.EOF
	return n, err
}
''')),
 dict(id='reader-alias', property='C17', needs='a source which writes to all of its buffer, and a character split between two reads', breaks='the unconsumed byte is kept where the next read of the source overwrites it',
      edits=[(PUB, '			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])\n', '			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])\n			if n > 512 {\n				n = 512\n			}\n')],
      demo=main([CP, 'io', 'bytes', 'strings'], '''
want := strings.Repeat("a", 5000)
r, err := cp949.NewReader(strings.NewReader(want))
var out bytes.Buffer
for err == nil {
	var n int
	b := make([]byte, 2000)
	n, err = r.Read(b)
	out.Write(b[:n])
}
if err != io.EOF || out.String() != want {
	fail(out.Len(), err)
}''')),
 dict(id='writer-keep', property='C19', needs='a piece which ends inside a character, the next piece completes it and ends inside another', breaks='the writer keeps the wrong bytes',
      edits=[(PUB, '	if n < len(wdata) {\n', '	if n < len(data) {\n')],
      demo=main([CP, 'bytes'], '''
// 가 is EA B0 80.
text := "가각갂"
want, _ := cp949.To([]byte(text))
for i := 0; i <= len(text); i++ {
	for j := i; j <= len(text); j++ {
		var out bytes.Buffer
		w, err := cp949.NewWriter(&out)
		if err != nil {
			fail(err)
		}
		for _, p := range []string{text[:i], text[i:j], text[j:]} {
			if n, err := w.Write([]byte(p)); n != len(p) || err != nil {
				fail(n, err)
			}
		}
		if !bytes.Equal(out.Bytes(), want) {
			fail(i, j, out.Bytes())
		}
	}
}''')),
 dict(id='decoder-cached', property='C22', needs='two decoders of one encoding, one of which is changed', breaks='the encoding caches its decoder, all callers share it',
      edits=[(ENC, 'type CP949Encoding struct{}', 'type CP949Encoding struct {\n	dec *encoding.Decoder\n}'),
             (ENC, '	return &encoding.Decoder{Transformer: new(cp949Decoder)}\n', '''	if e.dec == nil {
		e.dec = &encoding.Decoder{Transformer: new(cp949Decoder)}
	}
	return e.dec
''')],
      demo=main([CP, 'golang.org/x/text/transform'], '''
e := cp949.NewCP949Encoding()
a, b := e.NewDecoder(), e.NewDecoder()
a.Transformer = transform.Nop
s, err := b.Bytes([]byte{0xb0, 0xa1})
if err != nil || string(s) != "가" {
	fail(fmt.Sprintf("%q", s), err)
}''')),
 dict(id='reading-neighbour', property='C26', needs='one rare hanja', breaks='a hanja has the reading of its neighbour in the table',
      edits=[('hanja/table.go', '		0x6116: 0xc2ec,\n', '		0x6116: 0xc218,\n')],
      demo=main([HJ], '''
if s := hanja.Convert("\u6116"); s != "\uc2ec" {
	fail(s)
}''')),
 dict(id='moeum-filler', property='C05', needs='the Hangul filler U+3164', breaks='the filler which follows the vowels is taken for a vowel',
      edits=[('jamo.go', '''	case A <= r && r <= I:
		return true
	case IsMedial(r):''', '''	case A <= r && r <= I+1:
		return true
	case IsMedial(r):''')],
      demo=main([H], '''
if hangul.IsMoeum(0x3164) || hangul.IsHangul(0x3164) {
	fail("U+3164")
}''')),
 dict(id='pooled-translator', property='C11', needs='a second call of From while the result of the first is in use', breaks='the translator with its buffer goes back to a pool while the result still refers to it',
      edits=[(PUB, 'import (\n	"io"\n)', 'import (\n	"io"\n	"sync"\n)\n\nvar fromPool = sync.Pool{New: func() interface{} {\n	return &translateFromCp949{table: fromTable}\n}}'),
             (PUB, '''func From(in []byte) ([]byte, error) {
	tr, err := fromCp949()
	if err != nil {
		return nil, err
	}

''', '''func From(in []byte) ([]byte, error) {
	tr := fromPool.Get().(*translateFromCp949)
	defer fromPool.Put(tr)

''')],
      demo=main([CP], '''
for i := 0; i < 100; i++ {
	a, _ := cp949.From([]byte{0xb0, 0xa1, 0xb0, 0xa2})
	b, _ := cp949.From([]byte{0xb0, 0xa3, 0xb0, 0xa4})
	if string(a) != "가각" || string(b) != "간갇" {
		fail(string(a), string(b))
	}
}''')),
 dict(id='lead-exchange', property='C03', needs='a syllable with the leading consonant SS', breaks='compatibility SS is no leading consonant any more, so Join of SplitCompat fails',
      edits=[('jamo.go', '	SS: LeadSS,\n', '	SS: LeadS,\n')],
      demo=main([H], '''
for _, c := range "싸쌌씨" {
	if r := hangul.Join(hangul.SplitCompat(c)); r != c {
		fail(string(c), string(r))
	}
}''')),
 dict(id='multi-oe', property='C07', needs='the vowel YE', breaks='YE is split to the letters of E',
      edits=[('jamo.go', '	YE:  []rune{YEO, I},\n', '	YE:  []rune{EO, I},\n')],
      demo=main([H], '''
es, ok := hangul.SplitMultiElement(hangul.YE)
if !ok || len(es) != 2 || es[0] != hangul.YEO || es[1] != hangul.I {
	fail(es, ok)
}''')),
]

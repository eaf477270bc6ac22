From 63134f37a35e4cfa38b33371e5db96c5992a084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 01/10] fix: Split only precomposed hangul syllables

Split did its arithmetic on any rune, so it returned non-jamo values for
anything but a precomposed syllable. LastConsonant("a") was 4516,
EndsWithConsonant("hello") true, and AppendPostposition picked its
postposition from those values.
---
 hangul.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hangul.go b/hangul.go
index 1f5c089..5fa2e4c 100644
--- a/hangul.go
+++ b/hangul.go
@@ -46,7 +46,12 @@ func Join(l, m, t rune) rune {
 }
 
 // Split converts NFC to NFD
+// It returns 0 for all elements if c is not a precomposed hangul syllable.
 func Split(c rune) (l, m, t rune) {
+	if c < 0xAC00 || c > 0xD7A3 {
+		return 0, 0, 0
+	}
+
 	t = (c - 0xAC00) % 28
 	m = ((c - 0xAC00 - t) % 588) / 28
 	l = (c - 0xAC00) / 588
-- 
2.43.0


From c371fe38df5305ed1f4fe8903d63d7f0230bbef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 02/10] fix: Join rejects a rune which cannot be a tail

Tail maps a rune which is no tail consonant to 0 and tailIdx takes 0 as
"no tail", so Join(G, A, DD) dropped the DD and returned U+AC00 where an
invalid lead or medial gives U+FFFD.
---
 hangul.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hangul.go b/hangul.go
index 5fa2e4c..b91b1be 100644
--- a/hangul.go
+++ b/hangul.go
@@ -37,6 +37,11 @@ func Join(l, m, t rune) rune {
 		return rune(0xFFFD)
 	}
 
+	// Tail returns 0 for a non tail, which is not the same as no tail.
+	if t != 0 && Tail(t) == 0 {
+		return rune(0xFFFD)
+	}
+
 	ti, ok := tailIdx(Tail(t))
 	if !ok {
 		return rune(0xFFFD)
-- 
2.43.0


From 3321e15a2bbc02cd771c14604a72e6dba18b3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 03/10] fix: split WE to its single elements

WE was split to U and E, but E is a multi-element itself and has no entry
in the stroke table, so Stroke(WE) was 2 and less than Stroke(WEO).
List U, EO, I as it is done for WAE.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..3406de6 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From 5d026c11bbcd46a4aa8b97722540138cd37be43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 04/10] fix: do not hand out the multi-element table from
 SplitMultiElement

The returned slice was the one in the package's table. A caller which
changed it changed the result of later SplitMultiElement and Stroke calls.
---
 jamo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 3406de6..21f07ea 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,8 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	// Return a copy to keep the table from changes by the caller.
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From 16e82fdb42dfbc3e52b64880be1de0e15502ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 05/10] fix: convert an unmapped rune to a single '?'

A rune above the last one in the table was replaced with two '?'.
---
 encoding/cp949/cp949.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..2f378d4 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,10 +89,6 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
 		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
-- 
2.43.0


From 9cad5297c5cb73a55d8028f8979a9c5283bf2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 06/10] fix: do not convert a rune beyond the BMP to an
 unrelated character

The rune was truncated to 16 bits for the lookup, so U+1AC00 was converted
as if it was U+AC00.
---
 encoding/cp949/cp949.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 2f378d4..6f34bfa 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,7 +89,8 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		// rUcs2 lost the upper bits of a rune beyond the BMP.
+		if r <= 0xffff && fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From 0a8af95986d9fdd428f0bdfa448875fc15bc4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 07/10] fix: keep what precedes a truncated character in the
 reader

When the source ended in the middle of a two byte character, the reader
dropped everything it had buffered and returned a plain EOF:
"hello\xb0" was read as "" with no error. Hand out the characters before
it and then ErrCP949UnexpectedStream.
---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 6f34bfa..0693e83 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..a577070 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,8 +76,9 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
+		if cvterr != nil && r.err == io.EOF {
+			// The source ended in the middle of a character.
+			r.err = cvterr
 		}
 		r.cdata = cdata
 
-- 
2.43.0


From 86f84585b223165fa1a7d52ef515721cc7410984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 08/10] fix: do not take an empty read of the source as its end

A Read with an empty buffer, or a source which returned 0, nil, made the
reader return EOF for ever while the source still had data.
---
 encoding/cp949/public.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index a577070..776f6b0 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -68,7 +68,7 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
 			// Guard against non-compliant Readers.
 			if n == 0 && err == nil {
-				err = io.EOF
+				return 0, nil
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From eda49da961242e8d3a5fe50c89cdd2831a856521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 09/10] fix: keep a rune which is split between two Writes

The writer has a buffer for unconsumed data, but the translator never left
any: a rune whose bytes came in two Writes was written as '?'s.
---
 encoding/cp949/cp949.go  | 5 +++++
 encoding/cp949/public.go | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 0693e83..860d523 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -80,6 +80,11 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			continue
 		}
 
+		if !utf8.FullRune(data) {
+			// Leave it to the caller, the rest may come later.
+			break
+		}
+
 		r, s := utf8.DecodeRune(data)
 		rUcs2 := uint16(r)
 		fi := sort.Search(len(p.table), func(i int) bool {
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 776f6b0..2673080 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -30,11 +30,16 @@ func To(in []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	_, out, err := tr.Translate(in)
+	n, out, err := tr.Translate(in)
 	if err != nil {
 		return nil, err
 	}
 
+	// in ended in the middle of a rune.
+	for ; n < len(in); n++ {
+		out = append(out, '?')
+	}
+
 	return out, nil
 }
 
-- 
2.43.0


From e65fb6d4e0f80ae375c64093a9d01f61f6934c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 10/10] fix: make the CP949 transformers honor the Transformer
 contract

Transform ignored the size of dst, so decoding to more than the buffer of
the caller panicked (NewDecoder().Bytes did for 100 syllables), and it took
the end of every src for the end of the input, so a character split between
two chunks was an error or a '?'. Convert a character at a time and return
ErrShortDst and ErrShortSrc.
---
 encoding/cp949/encoding.go | 63 ++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..934e127 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,58 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		n := 1
+		if src[nSrc]&0x80 != 0 {
+			n = 2
+		}
+		if n > len(src)-nSrc && !atEOF {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		if n > len(src)-nSrc {
+			return nDst, nSrc, ErrCP949UnexpectedStream
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Use the From function to convert CP949 to UTF-8.
+		converted, err := From(src[nSrc : nSrc+n])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += n
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, n := utf8.DecodeRune(src[nSrc:])
+
+		// Use the To function to convert UTF-8 to CP949.
+		converted, err := To(src[nSrc : nSrc+n])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += n
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0


# Writes properties.jsonl (kept as a script so that the statements are easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

H="hangul.go"; J="jamo.go"; K="constant.go"; S="stroke.go"
C="encoding/cp949/cp949.go"; PU="encoding/cp949/public.go"; EN="encoding/cp949/encoding.go"
LF="encoding/cp949/lookup_from.go"; LT="encoding/cp949/lookup_to.go"; ER="encoding/cp949/err.go"
HA="hanja/hanja.go"; HT="hanja/table.go"

p("C01","Split gives the canonical decomposition of every syllable, 0,0,0 otherwise",
"For every rune c, Split(c) returns exactly the Unicode canonical decomposition of c into leading consonant, vowel and trailing consonant (conjoining jamo, trailing 0 when there is none) if c is one of the 11172 precomposed syllables U+AC00..U+D7A3, and 0, 0, 0 for every other rune. SplitCompat(c) returns the same three elements as compatibility jamo, and 0 for an absent one.",
["inputs"],"every rune value (all 2^32 values of the parameter type), including negative and non-Unicode ones",
"TestSplit looks at 6 syllables through SplitCompat; the arithmetic is over 11172 syllables and the whole rune range, and nothing tests a rune outside the syllable block.",
[H,J,K],[("Split","hangul.go Split"),("SplitCompat","hangul.go SplitCompat"),("jamo bases","constant.go leadBase, medialBase, tailBase")])

p("C02","Join composes exactly the valid triples and returns U+FFFD for all others",
"For every triple of runes, Join returns the syllable that Unicode composition defines if the first is one of the 19 leading consonants, the second one of the 21 vowels and the third one of the 27 trailing consonants or 0, where each may be given as conjoining jamo or as the corresponding compatibility jamo. For every other triple it returns U+FFFD; it never ignores an element.",
["inputs"],"every (l, m, t) in rune^3",
"TestJoin joins 4 triples of conjoining jamo; no compatibility jamo, no boundary jamo, no invalid element is tested.",
[H,J,K],[("Join","hangul.go Join"),("Lead/Medial/Tail normalisation","jamo.go Lead, Medial, Tail"),("index range checks","jamo.go leadIdx, medialIdx, tailIdx"),("index bounds","constant.go maxLeadIdx, maxMedialIdx, maxTailIdx")])

p("C03","Split and Join are inverse to each other",
"Join(Split(c)) == c and Join(SplitCompat(c)) == c for every precomposed syllable c, and Split(Join(l, m, t)) is (Lead(l), Medial(m), Tail(t)) whenever Join(l, m, t) is not U+FFFD.",
["inputs"],"all 11172 syllables; every (l, m, t) in rune^3 which Join accepts",
"No test composes the two; each side is tested on a handful of literals.",
[H,J],[("Join","hangul.go Join"),("Split","hangul.go Split"),("SplitCompat","hangul.go SplitCompat")])

p("C04","Jamo conversions map every letter to its Unicode counterpart and nothing else",
"For every rune, CompatJamo maps each modern conjoining jamo (19 leading, 21 vowels, 27 trailing) to the compatibility jamo of the same letter, each modern compatibility jamo U+3131..U+3163 to itself, and any other rune to 0. Lead, Medial and Tail map each conjoining jamo of their kind to itself, each compatibility jamo for which a conjoining jamo of that kind exists to it, and any other rune to 0.",
["inputs"],"every rune value as the argument of each of the four conversions",
"TestComaptJamo checks 4 of the 67 conjoining jamo, and Lead, Medial and Tail are only used by one assertion (TestIdx); a wrong, swapped or missing entry for another letter passes.",
[J,K],[("CompatJamo, Lead, Medial, Tail","jamo.go"),("conversion tables","jamo.go toCompatJamo, toLead, toTail")])

p("C05","Classification predicates are exact",
"For every rune: IsLead is true exactly for U+1100..U+1112, IsMedial exactly for U+1161..U+1175, IsTail exactly for U+11A8..U+11C2; IsJaeum exactly for those leading and trailing consonants and the compatibility consonants U+3131..U+314E; IsMoeum exactly for those vowels and the compatibility vowels U+314F..U+3163. IsHangul is true exactly for precomposed syllables U+AC00..U+D7A3 and the runes for which IsJaeum or IsMoeum is true.",
["inputs"],"every rune value as the argument of each of the six predicates",
"None of the six predicates is called by any test.",
[H,J,K],[("IsHangul","hangul.go IsHangul"),("IsLead, IsMedial, IsTail, IsJaeum, IsMoeum","jamo.go")])

p("C06","Exported jamo constants are the code points of the letters they name",
"Every exported jamo constant (G..I and NG, LeadG..LeadH, MedialA..MedialI, TailG..TailH) has as its value the Unicode code point of the letter it names: compatibility jamo, leading consonant, vowel and trailing consonant respectively.",
["inputs"],"all 119 exported constants",
"TestJamoConstants checks the last constant of each group only; two swapped names inside a group pass.",
[K],[("iota blocks","constant.go")])

p("C07","SplitMultiElement lists the basic letters of every compound jamo, privately",
"For every rune r, SplitMultiElement(r) reports true exactly if r is (as compatibility or conjoining jamo) a compound letter, and then the returned slice holds, in order, the basic letters (compatibility jamo which are not compound themselves) it is written with; otherwise it returns an empty slice and false. The returned slice belongs to the caller: changing it changes no later result.",
["inputs","histories"],"every rune value; every later call after any change to a returned slice",
"TestMultiElements checks GG and G; the other 26 compounds, conjoining jamo, other runes and aliasing of the result are not tested.",
[J],[("SplitMultiElement","jamo.go SplitMultiElement"),("multi-element table","jamo.go multiElements")])

p("C08","Stroke counts add up over the letters of every jamo and syllable",
"For every rune: Stroke of a basic letter (in any of its jamo forms) is ㄱ1 ㄴ1 ㄷ2 ㄹ3 ㅁ3 ㅂ4 ㅅ2 ㅇ1 ㅈ3 ㅊ4 ㅋ2 ㅌ3 ㅍ4 ㅎ3 ㅏ2 ㅑ3 ㅓ2 ㅕ3 ㅗ2 ㅛ3 ㅜ2 ㅠ3 ㅡ1 ㅣ1; of a compound letter the sum over the basic letters it is written with; of a precomposed syllable the sum over its leading consonant, vowel and trailing consonant; and 0 for any other rune.",
["inputs"],"every rune value, including all 11172 syllables",
"TestStroke checks 5 syllables, a space and 3 compound letters.",
[S,J,H],[("Stroke","stroke.go Stroke"),("stroke table","stroke.go strokes"),("multi-element table","jamo.go multiElements")])

p("C09","LastConsonant and EndsWithConsonant look exactly at the final character",
"For every string, LastConsonant returns the trailing conjoining consonant of the last character if that is a precomposed syllable which has one, and 0 in every other case (empty string, syllable without trailing consonant, any other last character, invalid UTF-8 at the end). EndsWithConsonant is true exactly if LastConsonant is not 0.",
["inputs"],"every string (any length, any script, invalid UTF-8 included)",
"The tests use 5 short Hangul words; strings that end in anything but a syllable are not tested.",
[H],[("LastConsonant","hangul.go LastConsonant"),("EndsWithConsonant","hangul.go EndsWithConsonant")])

p("C10","AppendPostposition appends the postposition the final consonant selects",
"For every word, with and without, AppendPostposition returns word followed by exactly one of with and without: with if the last character of word has a trailing consonant, without otherwise, except that a word ending with trailing ㄹ takes without when with is exactly \"으로\". Word and postposition appear unchanged.",
["inputs"],"every (word, with, without) in string^3",
"9 triples are tested; only one reaches the 으로 rule and none a non-Hangul ending or 으로 with another consonant.",
[H],[("AppendPostposition","hangul.go AppendPostposition")])

p("C11","No call changes the library's state or the result of a later call",
"No exported function or method of any package changes state shared between calls: results depend only on the arguments (and, for a reader, writer or transformer, on its own history), and nothing that is returned or accepted gives access to the library's tables. Converting, splitting or decoding in any order and any number of times gives the same results.",
["histories"],"every sequence of API calls, with callers free to modify whatever they were returned or passed in",
"Tests call each function a few times and never modify a result.",
[J,S,HA,HT,C,PU,EN,LF,LT],[("read-only tables","jamo.go, stroke.go, hanja/table.go, lookup_from.go, lookup_to.go"),("copy of table slices","jamo.go SplitMultiElement"),("per-call translator with its own scratch buffer","cp949.go fromCp949, toCp949")])

p("C12","Concurrent use of separate values needs no synchronisation",
"Package functions may be called from any number of goroutines at once, and distinct readers, writers, encodings, decoders and encoders may be used concurrently: no two of them ever access the same memory with at least one write. Every constructor returns a value that shares no mutable memory with any earlier one.",
["schedules"],"every interleaving of calls on distinct values and of package functions",
"No test starts a goroutine.",
[C,PU,EN,J,S,HA],[("no package state written after initialisation","all packages"),("fresh translator per constructor","cp949.go fromCp949, toCp949"),("stateless transformers","encoding.go NewDecoder, NewEncoder")])

p("C13","One-shot functions never panic and always return",
"Every exported function of the hangul and hanja packages and the one-shot CP949 conversions From and To return normally for every argument value: no index, slice, nil or conversion panic, and every loop ends.",
["inputs"],"every argument value: all runes, all strings and byte slices (nil, empty, truncated, invalid included)",
"Tests feed well-formed Korean text plus one truncated byte.",
[H,J,S,HA,C,PU],[("range checks","jamo.go leadIdx, medialIdx, tailIdx; hangul.go LastConsonant; cp949.go Translate"),("buffer growth","cp949.go ensureCap, appendRune")])

p("C14","CP949 decoding follows the code page for every byte sequence",
"From decodes every byte sequence unit by unit: a byte below 0x80 to itself, two bytes of which the first is 0x80 or above to the UTF-8 form of the character that code page 949 assigns to the pair, or to one U+FFFD if it assigns none. If the input ends after the first byte of a pair, From returns ErrCP949UnexpectedStream (and no data); otherwise the error is nil.",
["inputs"],"every byte sequence; all 32768 pairs with a first byte of 0x80 or above",
"The tests decode four short texts, about 200 of the 17048 assigned pairs, one lone lead byte, and no unassigned pair.",
[C,PU,LF,ER],[("decoder","cp949.go translateFromCp949.Translate"),("lookup table sorted by CP949","lookup_from.go fromTable"),("UTF-8 append","cp949.go appendRune, ensureCap"),("From","public.go From")])

p("C15","CP949 encoding follows the code page for every string",
"To encodes every byte sequence character by character (UTF-8): ASCII to itself, a character that code page 949 contains to its two bytes, lead byte first, and any other character, in particular every one above U+FFFF, as well as each byte of invalid or truncated UTF-8, to one '?'. The error is always nil.",
["inputs"],"every byte sequence, valid UTF-8 or not; all Unicode characters",
"The tests encode the same four short texts; no unmapped, supplementary, or invalid character is encoded.",
[C,PU,LT],[("encoder","cp949.go translateToCp949.Translate"),("lookup table sorted by Unicode","lookup_to.go toTable"),("To","public.go To")])

p("C16","The CP949 and Unicode tables are the code page, each the inverse of the other",
"The decoding and the encoding direction use one bijection: each of the 17048 two-byte codes of code page 949 maps to its own BMP character and that character maps back to the same code, so To(From(b)) == b for every b made of ASCII and assigned pairs, and From(To(s)) == s for every s made of ASCII and characters of the code page. No code has a first byte, and no character a value, below 0x80.",
["inputs"],"all 17048 codes and all characters; every text over them",
"TestLookupTableSorted checks order only; the round trip is tested for four texts.",
[LF,LT,C],[("fromTable","lookup_from.go"),("toTable","lookup_to.go")])

p("C17","Decoding reader delivers From of the whole stream for any chunking",
"Whatever sizes the source delivers data in and whatever buffer sizes the caller reads with, the bytes read from a NewReader reader are exactly the decoding of the source's bytes, each exactly once and in order, followed by the source's error: nothing is lost, repeated or reordered at a chunk boundary. If the source ends inside a two-byte character, everything before it is delivered and then ErrCP949UnexpectedStream instead of io.EOF; an error, or a (0, nil) from the source, never discards data.",
["inputs","histories","fault_sequences"],"every source byte sequence, every splitting of it into source reads (empty ones included), every sequence of caller buffer sizes, a source error at any point",
"NewReader is not called by any test.",
[PU,C],[("cp949Reader.Read","public.go Read"),("decoder's consumed count","cp949.go translateFromCp949.Translate")],
[("rdata","source bytes read and not yet converted","public.go cp949Reader"),("cdata","converted bytes not yet returned","public.go cp949Reader"),("err","final error of the source","public.go cp949Reader")])

p("C18","The reader honours the io.Reader contract",
"Read on a NewReader reader returns 0 <= n <= len(p), has written only to p[:n], reports the source's error only after all converted data has been returned, keeps reporting it, and does not read from the source while it has converted data to return. A Read with an empty buffer loses nothing and is not taken for the end of the stream.",
["inputs","histories"],"every reachable reader state, every buffer length, every (n, err) an io.Reader may return",
"NewReader is not called by any test.",
[PU],[("cp949Reader.Read","public.go Read")],
[("cdata","converted bytes not yet returned","public.go cp949Reader"),("err","final error of the source","public.go cp949Reader")])

p("C19","Encoding writer emits To of the concatenated writes for any splitting",
"Whatever pieces a UTF-8 text is written in to a NewWriter writer, split inside characters included, the bytes that reach the underlying writer are exactly the encoding of the concatenation, in order, with nothing lost or repeated; only a final incomplete character is held back. Write returns len(data) and nil if the underlying write succeeded, and the underlying error otherwise; it neither changes nor keeps data.",
["inputs","histories","fault_sequences"],"every sequence of Write calls with any byte slices, the underlying writer failing at any of them",
"NewWriter is not called by any test.",
[PU,C],[("cp949Writer.Write","public.go Write"),("encoder's consumed count","cp949.go translateToCp949.Translate")],
[("buf","bytes of an incomplete character","public.go cp949Writer")])

p("C20","The decoder honours the Transformer contract for every buffer size",
"Transform of the transformer behind NewDecoder writes to dst[:nDst] exactly the decoding of src[:nSrc], with nDst <= len(dst), nSrc <= len(src), and never splits a character. It returns a nil error only when it consumed all of src, ErrShortDst only when the next character does not fit into dst, ErrShortSrc only when atEOF is false and src ends inside a two-byte character, ErrCP949UnexpectedStream only when atEOF is true and it does; so decoding gives the same result for any chunking.",
["inputs","histories"],"every dst length, every src, both values of atEOF",
"The tests decode texts of up to a few hundred bytes through one 4096 byte buffer, in a single chunk.",
[EN,PU,C],[("cp949Decoder.Transform","encoding.go Transform")])

p("C21","The encoder honours the Transformer contract for every buffer size",
"Transform of the transformer behind NewEncoder writes to dst[:nDst] exactly the encoding of src[:nSrc], with nDst <= len(dst), nSrc <= len(src), and never splits a character. It returns a nil error only when it consumed all of src, ErrShortDst only when the next character's encoding does not fit into dst, and ErrShortSrc only when atEOF is false and src ends inside a character; with atEOF true an incomplete character at the end is encoded like invalid UTF-8.",
["inputs","histories"],"every dst length, every src, both values of atEOF",
"The tests encode texts of up to a few hundred bytes through one 4096 byte buffer, in a single chunk.",
[EN,PU,C],[("cp949Encoder.Transform","encoding.go Transform")])

p("C22","CP949Encoding plugs into x/text with the right direction and fresh state",
"A *CP949Encoding is an x/text encoding.Encoding: each NewDecoder call returns a decoder whose transformer converts CP949 to UTF-8 and each NewEncoder call an encoder whose transformer converts UTF-8 to CP949, both ready to use and with a transformer (never nil) whose state is not shared with any other. Reset brings a transformer back to its initial state.",
["programs","histories"],"every program that uses the type through the x/text interfaces; every use of Reset",
"The tests use the methods directly, once each, and never Reset.",
[EN],[("NewCP949Encoding, NewDecoder, NewEncoder","encoding.go"),("Reset","encoding.go Reset")])

p("C23","Caller's memory is never changed, kept or shared",
"From, To, the transformers and the writer never write to their input slice and keep no reference to it, the transformers write to dst only below the returned count, and the slices that From and To return share memory with no input and with no other result.",
["inputs","histories"],"every input slice (any capacity) and every sequence of calls",
"Tests pass temporary slices and drop the results.",
[C,PU,EN],[("own scratch buffer","cp949.go Translate"),("copy of pending bytes","public.go Write")])

p("C24","Hanja conversion replaces exactly the known hanja, rune for rune",
"For every string of valid UTF-8, Convert returns the string in which each rune that is in the hanja dictionary is replaced by its one-syllable reading and every other rune is unchanged, in the same order and number; converting twice gives the same as once.",
["inputs"],"every string of valid UTF-8",
"TestTable converts one sentence with 10 hanja.",
[HA],[("Convert","hanja.go Convert"),("dictionary","table.go table")])

p("C25","IsHanja tells exactly which runes Convert replaces",
"For every rune c, IsHanja(c) is true exactly if c is in the dictionary Convert uses, that is if Convert changes a string that contains c. It is false for every Hangul syllable, jamo and ASCII character.",
["inputs"],"every rune value",
"IsHanja is not called by any test.",
[HA,HT],[("IsHanja","hanja.go IsHanja"),("Convert","hanja.go Convert")])

p("C26","Every hanja reading is the established one",
"Every entry of the hanja dictionary maps one CJK ideograph (never ASCII, Hangul or jamo) to one precomposed Hangul syllable, which for every hanja in the Korean collation order of Unicode CLDR (these include KS X 1001) is an established reading given there, and otherwise the reference reading. No hanja of the reference dictionary (27496 entries) is missing.",
["inputs"],"all 27496 hanja in the dictionary",
"TestTable touches 10 entries.",
[HT],[("dictionary","table.go table")])

p("C27","Conversion cost is linear in the input",
"From, To, Convert, the reader, the writer and the transformers take time and memory at most proportional to the length of the data they convert.",
["inputs"],"every input length",
"No test or benchmark measures growth.",
[C,PU,EN,HA],[("amortised buffer growth","cp949.go ensureCap, append"),("binary search","cp949.go sort.Search")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
assert all(len(x["title"])<=80 for x in P),[x["title"] for x in P if len(x["title"])>80]

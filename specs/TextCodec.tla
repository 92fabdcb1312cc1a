------------------------------ MODULE TextCodec ------------------------------
(* Text encodings as streams. A decoder turns bytes into units: complete    *)
(* code points, or single malformed code units passed through one at a      *)
(* time. A converter may be fed in any pieces and drained into any space;   *)
(* what comes out depends only on the bytes that went in (and on where it   *)
(* was flushed). The file formats add a byte order mark and a newline       *)
(* style on top.                                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Mod(a, b) == a % b

Min(a, b) == IF a < b THEN a ELSE b

(* -- decoding one unit at position i (1-based) of s: <<point, length, status>> *)
Cont(x) == x \in 128..191
DecU8(s, i) ==
    LET f == s[i]
        av == Len(s) - i + 1
        need == IF f < 128 THEN 1 ELSE IF f \in 192..223 THEN 2
                ELSE IF f \in 224..239 THEN 3 ELSE IF f \in 240..247 THEN 4 ELSE 0 IN
    IF need = 1 THEN <<f, 1, "ok">>
    ELSE IF need = 0 THEN <<f, 1, "bad">>
    ELSE IF av < need THEN <<f, 1, "trunc">>
    ELSE IF \A k \in 1..need - 1 : Cont(s[i + k])
         THEN <<CASE need = 2 -> Mod(f, 32) * 64 + Mod(s[i + 1], 64)
                  [] need = 3 -> Mod(f, 16) * 4096 + Mod(s[i + 1], 64) * 64 + Mod(s[i + 2], 64)
                  [] OTHER -> Mod(f, 8) * 262144 + Mod(s[i + 1], 64) * 4096 + Mod(s[i + 2], 64) * 64 + Mod(s[i + 3], 64),
                need, "ok">>
         ELSE <<f, 1, "bad">>
U16(s, i, be) == IF be THEN s[i] * 256 + s[i + 1] ELSE s[i] + 256 * s[i + 1]
DecU16(s, i, be) ==
    LET av == Len(s) - i + 1 IN
    IF av < 2 THEN <<-1, 0, "trunc">>
    ELSE LET u == U16(s, i, be) IN
         IF u \in 55296..56319 THEN
             IF av < 4 THEN <<u, 2, "trunc">>
             ELSE LET w == U16(s, i + 2, be) IN
                  IF w \in 56320..57343 THEN <<65536 + (u - 55296) * 1024 + (w - 56320), 4, "ok">>
                  ELSE <<u, 2, "bad">>
         ELSE <<u, 2, IF u \in 56320..57343 THEN "bad" ELSE "ok">>
Dec1(enc, s, i) == CASE enc = "utf8" -> DecU8(s, i)
                     [] enc = "utf16le" -> DecU16(s, i, FALSE)
                     [] enc = "utf16be" -> DecU16(s, i, TRUE)
                     [] OTHER -> <<s[i], 1, "ok">>

EncU8(p) == IF p < 128 THEN <<p>>
            ELSE IF p < 2048 THEN <<192 + p \div 64, 128 + Mod(p, 64)>>
            ELSE IF p < 65536 THEN <<224 + p \div 4096, 128 + Mod((p \div 64), 64), 128 + Mod(p, 64)>>
            ELSE <<240 + p \div 262144, 128 + Mod((p \div 4096), 64), 128 + Mod((p \div 64), 64), 128 + Mod(p, 64)>>
Unit(u, be) == IF be THEN <<u \div 256, Mod(u, 256)>> ELSE <<Mod(u, 256), u \div 256>>
EncU16(p, be) == IF p < 65536 THEN Unit(p, be)
                 ELSE Unit(55296 + (p - 65536) \div 1024, be) \o Unit(56320 + Mod((p - 65536), 1024), be)
Enc1(enc, p) == CASE enc = "utf8" -> EncU8(p)
                  [] enc = "utf16le" -> EncU16(p, FALSE)
                  [] enc = "utf16be" -> EncU16(p, TRUE)
                  [] OTHER -> <<IF p < 256 THEN p ELSE 149>>

(* s from i on, converted: the units that end at or before lim (they are     *)
(* told apart by what follows them, too): <<output, index of the first byte  *)
(* not decoded>>. Flushing ends an incomplete sequence; half a code unit     *)
(* stays where it is.                                                        *)
RECURSIVE ConvK(_, _, _, _, _, _, _, _), ConvL(_, _, _, _, _, _, _)
ConvK(de, se, s, i, lim, flush, out, k) ==      \* at most k units
    IF i > lim THEN <<out, i, TRUE>>
    ELSE IF k = 0 THEN <<out, i, FALSE>>
    ELSE LET d == Dec1(se, s, i) IN
         IF d[3] = "trunc" /\ (~flush \/ d[2] = 0) THEN <<out, i, TRUE>>
         ELSE IF i + d[2] > lim + 1 THEN <<out, i, TRUE>>
         ELSE ConvK(de, se, s, i + d[2], lim, flush, out \o Enc1(de, d[1]), k - 1)
ConvL(de, se, s, i, lim, flush, out) ==
    LET c == ConvK(de, se, s, i, lim, flush, <<>>, 80) IN
    IF c[3] THEN <<out \o c[1], c[2]>> ELSE ConvL(de, se, s, c[2], lim, flush, out \o c[1])
Conv(de, se, s, i, flush, out) == ConvL(de, se, s, i, Len(s), flush, out)
ConvertAll(de, se, s) == Conv(de, se, s, 1, TRUE, <<>>)[1]

VARIABLES src, dst, rest, pend
cvars == <<src, dst, rest, pend>>

ConvInit == src = "utf8" /\ dst = "utf8" /\ rest = <<>> /\ pend = <<>>
ConvReset(s, d) == src' = s /\ dst' = d /\ rest' = <<>> /\ pend' = <<>>

(* Offered the bytes b and cap bytes of room: consumes the first n, emits o. *)
Feed(b, cap, flush, n, o) ==
    LET c == ConvL(dst, src, rest \o b, 1, Len(rest) + n, flush, <<>>)
        all == pend \o c[1] IN
    /\ n <= Len(b)
    /\ Len(o) <= Min(cap, Len(all)) /\ o = SubSeq(all, 1, Len(o))
    /\ pend' = SubSeq(all, Len(o) + 1, Len(all))
    /\ rest' = SubSeq(rest \o SubSeq(b, 1, n), c[2], Len(rest) + n)
    /\ (Len(o) < cap) => (pend' = <<>> /\ (n = Len(b) \/ (flush /\ src # "utf8" /\ n = Len(b) - 1)))
    /\ UNCHANGED <<src, dst>>

(* -- where an offset is, for a person ------------------------------------ *)
\* the index of the first byte of the character the byte at index i belongs to
CharStart(s, i) ==
    LET inside == { k \in 1..3 : i - k >= 1 /\ DecU8(s, i - k)[2] > k } IN
    IF i > Len(s) \/ inside = {} THEN i ELSE i - (CHOOSE k \in inside : TRUE)
Breaks(s) == { j \in 1..Len(s) : s[j] = 10 }
\* the column reached at index i, from index j in column c; tabs go to every fourth
RECURSIVE ColFrom(_, _, _, _)
ColFrom(s, j, i, c) ==
    IF j >= i THEN c
    ELSE LET d == DecU8(s, j) IN
         ColFrom(s, j + d[2], i, IF d[1] = 9 THEN c + 4 - Mod(c, 4) ELSE IF d[1] = 13 THEN c ELSE c + 1)
Located(s, q, brk) ==      \* q: <<offset, line, bytes into it, column, bytes into that>>
    LET i == q[1] + 1
        before == { j \in brk : j < i }
        start == IF before = {} THEN 1 ELSE 1 + CHOOSE j \in before : \A k \in before : k <= j
        ch == CharStart(s, i) IN
    /\ q[2] = 1 + Cardinality(before)
    /\ q[3] = i - start
    /\ q[4] = ColFrom(s, start, ch, 1)
    /\ q[5] = i - ch

(* -- file formats ------------------------------------------------------- *)
BOM(enc) == CASE enc = "utf8" -> <<239, 187, 191>>
              [] enc = "utf16le" -> <<255, 254>>
              [] enc = "utf16be" -> <<254, 255>>
              [] OTHER -> <<>>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

NotCR(x) == x # 13
NoCR(s) == SelectSeq(s, NotCR)
RECURSIVE Flat(_, _, _)
Flat(q, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN q[lo]
                   ELSE LET m == (lo + hi) \div 2 IN Flat(q, lo, m) \o Flat(q, m + 1, hi)
ToCRLF(s) == Flat([i \in 1..Len(s) |-> IF s[i] = 10 THEN <<13, 10>> ELSE <<s[i]>>], 1, Len(s))
NewLines(s, crlf) == IF crlf THEN ToCRLF(NoCR(s)) ELSE NoCR(s)

(* Text written through a format; `bytes` writes 8-bit text as it is.       *)
Export(f, text) == LET t == NewLines(text, f.crlf) IN
    (IF f.bom THEN BOM(f.enc) ELSE <<>>) \o
    (IF f.enc \in {"utf8", "bytes"} THEN t ELSE ConvertAll(f.enc, "utf8", t))
Import(f, raw) ==
    LET body == IF f.bom /\ StartsWith(raw, BOM(f.enc)) THEN SubSeq(raw, Len(BOM(f.enc)) + 1, Len(raw)) ELSE raw IN
    NoCR(IF f.enc = "utf8" THEN body ELSE ConvertAll("utf8", f.enc, body))

(* -- recognising a format ------------------------------------------------ *)
RECURSIVE ScanK(_, _, _, _, _, _, _), ScanL(_, _, _, _, _, _)
\* <<clean, lines, crlf, next index, previous was CR>>
\* clean: well formed, no control characters
ScanK(enc, s, i, prevCR, lines, crlf, k) ==
    IF i > Len(s) \/ k = 0 THEN <<TRUE, lines, crlf, i, prevCR>>
    ELSE LET d == Dec1(enc, s, i) IN
         IF d[3] # "ok" THEN <<FALSE, lines, crlf>>
         ELSE IF d[1] < 32 /\ d[1] \notin {9, 10, 13} THEN <<FALSE, lines, crlf>>
         ELSE ScanK(enc, s, i + d[2], d[1] = 13, lines + (IF d[1] = 10 THEN 1 ELSE 0),
                   crlf + (IF d[1] = 10 /\ prevCR THEN 1 ELSE 0), k - 1)
ScanL(enc, s, i, prevCR, lines, crlf) ==
    LET c == ScanK(enc, s, i, prevCR, lines, crlf, 80) IN
    IF ~c[1] \/ c[4] > Len(s) THEN c ELSE ScanL(enc, s, c[4], c[5], c[2], c[3])
Scan(enc, s) == ScanL(enc, s, 1, FALSE, 0, 0)
NewLineOf(sc) == sc[3] > 0 /\ sc[3] * 2 >= sc[2]
DetectOk(raw, f) ==
    LET b == CASE StartsWith(raw, BOM("utf8")) -> "utf8"
               [] StartsWith(raw, BOM("utf16be")) -> "utf16be"
               [] StartsWith(raw, BOM("utf16le")) -> "utf16le"
               [] OTHER -> "none" IN
    IF b # "none" THEN
        /\ f.enc = b /\ f.bom
        /\ LET sc == Scan(b, raw) IN sc[1] => f.crlf = NewLineOf(sc)
    ELSE /\ ~f.bom
         /\ LET sc == Scan("utf8", raw) IN
            sc[1] => (f.enc = "utf8" /\ f.crlf = NewLineOf(sc))
            \* otherwise it is a guess

(* -- exhaustive checking of the specification itself ---------------------- *)
CONSTANTS Points
MCInit == ConvInit
MCReset == \E s, d \in {"utf8", "utf16le", "utf16be"} : ConvReset(s, d)
RECURSIVE EncAll(_, _, _)
EncAll(enc, p, i) == IF i > Len(p) THEN <<>> ELSE Enc1(enc, p[i]) \o EncAll(enc, p, i + 1)
Texts == {<<>>} \cup {<<p>> : p \in Points} \cup {<<p, q>> : p, q \in Points}
MCFeed == \E b \in {<<65>>, <<195>>, <<169>>, <<226>>, <<130, 172>>, <<240, 159>>}, cap \in 0..3, f \in BOOLEAN :
             \E n \in 0..Len(b) : \E k \in 0..cap :
                LET c == ConvL(dst, src, rest \o b, 1, Len(rest) + n, f, <<>>)
                    all == pend \o c[1] IN
                k <= Len(all) /\ Feed(b, cap, f, n, SubSeq(all, 1, k))
MCNext == (rest = <<>> /\ pend = <<>> /\ MCReset) \/ MCFeed
MCSpec == MCInit /\ [][MCNext]_cvars
HeldBack == Len(rest) <= 3
(* Every text survives a conversion there and back, and every format.       *)
RoundTrip == \A t \in Texts : \A d \in {"utf8", "utf16le", "utf16be"} :
                /\ ConvertAll("utf8", d, ConvertAll(d, "utf8", EncAll("utf8", t, 1))) = EncAll("utf8", t, 1)
                /\ \A cr, bom \in BOOLEAN :
                    LET f == [enc |-> d, crlf |-> cr, bom |-> bom]
                        x == EncAll("utf8", t, 1) IN
                    (bom \/ ~StartsWith(x, BOM("utf8"))) => Import(f, Export(f, x)) = NoCR(x)
=============================================================================

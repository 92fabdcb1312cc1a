----------------------------- MODULE TextSyntax -----------------------------
(* Reading and writing numbers, quoted strings, identifiers, lines and      *)
(* escaped text. A reader is a position in a text; every operation consumes *)
(* the longest prefix of its form from there and reports whether it was     *)
(* well formed. 64-bit integers are four 16-bit words, least significant    *)
(* first.                                                                   *)
EXTENDS Naturals, Integers, Sequences
Mod(a, b) == a % b
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

(* -- integers ------------------------------------------------------------ *)
Zero4 == <<0, 0, 0, 0>>
DigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87
              ELSE IF c \in 65..90 THEN c - 55 ELSE 99
MulAdd(w, m, a) ==      \* <<words, overflowed>>
    LET t1 == w[1] * m + a
        t2 == w[2] * m + t1 \div 65536
        t3 == w[3] * m + t2 \div 65536
        t4 == w[4] * m + t3 \div 65536 IN
    <<<<Mod(t1, 65536), Mod(t2, 65536), Mod(t3, 65536), Mod(t4, 65536)>>, t4 \div 65536 > 0>>
RECURSIVE Digits(_, _, _, _, _)
\* <<value, overflowed, index of the first byte that is no digit>>
Digits(s, i, radix, w, ovf) ==
    IF i > Len(s) \/ DigitOf(s[i]) >= radix THEN <<w, ovf, i>>
    ELSE LET r == MulAdd(w, radix, DigitOf(s[i])) IN Digits(s, i + 1, radix, r[1], ovf \/ r[2])
Neg4(w) ==              \* two's complement
    LET a == 65536 - w[1]
        b == 65535 - w[2] + a \div 65536
        c == 65535 - w[3] + b \div 65536
        d == 65535 - w[4] + c \div 65536 IN
    <<Mod(a, 65536), Mod(b, 65536), Mod(c, 65536), Mod(d, 65536)>>
Bits == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, s8 |-> 8, s16 |-> 16, s32 |-> 32, s64 |-> 64]
Signed == {"s8", "s16", "s32", "s64"}
FitsU(w, bits) == CASE bits = 8 -> w[1] < 256 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
                    [] bits = 16 -> w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
                    [] bits = 32 -> w[3] = 0 /\ w[4] = 0
                    [] OTHER -> TRUE
HighBit(bits) == CASE bits = 8 -> <<128, 0, 0, 0>> [] bits = 16 -> <<32768, 0, 0, 0>>
                   [] bits = 32 -> <<0, 32768, 0, 0>> [] OTHER -> <<0, 0, 0, 32768>>
Below(w, bits) == CASE bits = 8 -> w[1] < 128 /\ FitsU(w, 8)
                    [] bits = 16 -> w[1] < 32768 /\ FitsU(w, 16)
                    [] bits = 32 -> w[2] < 32768 /\ FitsU(w, 32)
                    [] OTHER -> w[4] < 32768
\* reading an integer at position i: <<value, error, next position>>
ParseInt(s, i, ty, radix) ==
    LET neg == ty \in Signed /\ At(s, i) = 45
        st == IF neg THEN i + 1 ELSE i
        d == Digits(s, st, radix, Zero4, FALSE)
        none == d[3] = st
        big == d[2] \/ (IF ty \notin Signed THEN ~FitsU(d[1], Bits[ty])
                        ELSE ~Below(d[1], Bits[ty]) /\ ~(neg /\ d[1] = HighBit(Bits[ty]))) IN
    <<IF neg THEN Neg4(d[1]) ELSE d[1], none \/ big, d[3]>>
\* o is the one canonical text of the integer w
PrintOk(ty, w, radix, cap, o) ==
    LET neg == ty \in Signed /\ w[4] >= 32768
        mag == IF neg THEN Neg4(w) ELSE w
        st == IF neg THEN 2 ELSE 1
        d == Digits(o, st, radix, Zero4, FALSE) IN
    /\ neg => At(o, 1) = 45
    /\ Len(o) >= st /\ d[3] = Len(o) + 1 /\ ~d[2] /\ d[1] = mag
    /\ (Len(o) > st) => o[st] # 48
    /\ \A k \in st..Len(o) : o[k] \in (IF cap THEN 65..90 ELSE 97..122) \cup 48..57

(* -- real numbers --------------------------------------------------------- *)
RECURSIVE SkipDigits(_, _, _)
SkipDigits(s, i, radix) == IF i > Len(s) \/ DigitOf(s[i]) >= radix THEN i ELSE SkipDigits(s, i + 1, radix)
RECURSIVE SmallNat(_, _, _, _, _)
Lim == 1000000000
Minn(a, b) == IF a < b THEN a ELSE b
SmallNat(s, i, j, radix, acc) ==      \* digits i..j, saturating
    IF i > j THEN acc ELSE SmallNat(s, i + 1, j, radix, IF acc >= Lim \div radix THEN Lim ELSE acc * radix + DigitOf(s[i]))
\* <<negative, digits before the point, digits after it, exponent, error, next, fuzzy>>
ParseReal(s, i, radix) ==
    LET neg == At(s, i) = 45
        a == IF neg THEN i + 1 ELSE i
        b == SkipDigits(s, a, radix)
        hasPt == At(s, b) = 46
        c == IF hasPt THEN SkipDigits(s, b + 1, radix) ELSE b
        hasExp == b > a /\ At(s, c) \in {69, 101}
        sgn == hasExp /\ At(s, c + 1) \in {43, 45}
        es == IF sgn THEN c + 2 ELSE c + 1
        ee == IF hasExp THEN SkipDigits(s, es, radix) ELSE c
        x == IF hasExp THEN Minn(SmallNat(s, es, ee - 1, radix, 0), 10000) ELSE 0 IN
    [neg |-> neg, ds |-> SubSeq(s, a, b - 1) \o (IF hasPt THEN SubSeq(s, b + 1, c - 1) ELSE <<>>),
     pt |-> (b - a) + (IF sgn /\ s[c + 1] = 45 THEN 0 - x ELSE x),
     err |-> IF hasExp THEN ee = es ELSE b = a, next |-> ee,
     vague |-> b = a /\ hasPt /\ c > b + 1]
\* the value times radix^places, truncated; saturating at Lim
RECURSIVE Scaled(_, _, _, _, _)
Scaled(ds, k, n, radix, acc) ==
    IF k > n \/ acc = Lim THEN acc
    ELSE IF k > Len(ds) /\ acc = 0 THEN 0
    ELSE Scaled(ds, k + 1, n, radix,
                IF acc >= Lim \div radix THEN Lim
                ELSE acc * radix + (IF k <= Len(ds) THEN DigitOf(ds[k]) ELSE 0))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* q is the value times radix^places, rounded
RealOk(p, radix, places, q) ==
    LET m == Scaled(p.ds, 1, p.pt + places, radix, 0) IN
    IF m = Lim THEN Abs(q) >= Lim \div 40 /\ (p.neg <=> q < 0)
    ELSE /\ Abs(q) \in {m, m + 1} \* the recorded value is rounded, m truncated
         /\ (q # 0) => (p.neg <=> q < 0)

\* o is a text for sign * m * 10^x (m > 0), correct to three places after the
\* leading digits it shows, up to one unit in the last of them
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000
              [] n = 5 -> 100000 [] n = 6 -> 1000000 [] n = 7 -> 10000000 [] n = 8 -> 100000000 [] OTHER -> 1000000000
RECURSIVE NumLen(_)
NumLen(m) == IF m < 10 THEN 1 ELSE 1 + NumLen(m \div 10)
ShiftDown(m, n) == IF n <= 0 THEN m * Pow10(0 - n) ELSE m \div Pow10(n)
PrintRealOk(neg, m, x, o) ==
    LET st == IF neg THEN 2 ELSE 1
        b == SkipDigits(o, st, 10)
        c == SkipDigits(o, b + 1, 10)
        top == NumLen(m) + x              \* the value lies in [10^(top-1), 10^top)
        hasE == At(o, c) = 101
        en == At(o, c + 1) = 45
        es == IF en THEN c + 2 ELSE c + 1
        e1 == SmallNat(o, es, Len(o), 10, 0)
        ex == IF hasE THEN (IF en THEN 0 - e1 ELSE e1) ELSE 0
        shown == SmallNat(SubSeq(o, st, b - 1) \o SubSeq(o, b + 1, c - 1), 1, (b - st) + 3, 10, 0) IN
    /\ neg => At(o, 1) = 45
    /\ b > st /\ At(o, b) = 46 /\ c = b + 4       \* digits . ddd
    /\ IF hasE THEN b = st + 1 /\ SkipDigits(o, es, 10) = Len(o) + 1 /\ Len(o) >= es ELSE c = Len(o) + 1
    /\ hasE => (o[st] # 48 /\ ex = top - 1)
    /\ ~hasE => (top \in (-1)..6 /\ (o[st] = 48 => b = st + 1))
    \* shown = value * 1000 / 10^ex
    /\ LET want == ShiftDown(m, ex - 3 - x) IN shown \in (want - 1)..(want + 1)

(* -- quoted strings --------------------------------------------------------- *)
(* q: the quote; run: quotes just seen; multi: inside triple quotes          *)
Rep(c, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<c>> ELSE <<c, c>>
RECURSIVE QuotedR(_, _, _, _, _, _, _)
\* <<text, error codes, next position>>
QuotedR(s, i, q, run, multi, out, errs) ==
    IF i > Len(s) THEN
        IF run = 2 /\ ~multi THEN <<out, errs, i>> ELSE <<out, Append(errs, "eof"), i>>
    ELSE LET c == s[i] IN
      IF c = q THEN
          IF run = 0 THEN (IF multi THEN QuotedR(s, i + 1, q, 1, TRUE, out, errs) ELSE <<out, errs, i + 1>>)
          ELSE IF run = 1 THEN QuotedR(s, i + 1, q, 2, multi, out, errs)
          ELSE IF multi THEN <<out, errs, i + 1>> ELSE QuotedR(s, i + 1, q, 0, TRUE, out, errs)
      ELSE IF run = 2 /\ ~multi THEN <<out, errs, i>>
      ELSE LET o2 == IF multi THEN out \o Rep(q, run) ELSE out IN
        IF c \in {10, 13} THEN
            IF multi THEN QuotedR(s, i + 1, q, 0, TRUE, IF c = 10 THEN Append(o2, c) ELSE o2, errs)
            ELSE <<o2, Append(errs, "eol"), i>>
        ELSE IF c = 92 THEN
            LET d == At(s, i + 1) IN
            IF d = -1 THEN <<o2, Append(errs, "eof"), i + 1>>
            ELSE IF d \in {10, 13} THEN <<o2, Append(errs, "eol"), i + 1>>
            ELSE IF d \in {92, 39, 34} THEN QuotedR(s, i + 2, q, 0, multi, Append(o2, d), errs)
            ELSE IF d = 114 THEN QuotedR(s, i + 2, q, 0, multi, Append(o2, 13), errs)
            ELSE IF d = 110 THEN QuotedR(s, i + 2, q, 0, multi, Append(o2, 10), errs)
            ELSE IF d = 116 THEN QuotedR(s, i + 2, q, 0, multi, Append(o2, 9), errs)
            ELSE QuotedR(s, i + 2, q, 0, multi, o2, Append(errs, "escape"))
        ELSE QuotedR(s, i + 1, q, 0, multi, Append(o2, c), errs)
Quoted(s, i, single) ==
    LET q == At(s, i) IN
    IF q = -1 THEN <<<<>>, <<"eof">>, i>>
    ELSE IF q = 34 \/ (single /\ q = 39) THEN QuotedR(s, i + 1, q, 1, FALSE, <<>>, <<>>)
    ELSE <<<<>>, <<"noquote">>, i>>

(* -- identifiers, white space, lines ------------------------------------------ *)
IdStart(c, dollar, dash) == c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ c >= 128
                            \/ (dollar /\ c = 36) \/ (dash /\ c = 45)
IdChar(c, dollar, dash) == IdStart(c, dollar, dash) \/ c \in 48..57
RECURSIVE IdEnd(_, _, _, _)
IdEnd(s, i, dollar, dash) == IF i <= Len(s) /\ IdChar(s[i], dollar, dash) THEN IdEnd(s, i + 1, dollar, dash) ELSE i
Ident(s, i, dollar, dash) == IF i <= Len(s) /\ IdStart(s[i], dollar, dash) THEN IdEnd(s, i + 1, dollar, dash) ELSE i
White == {9, 10, 13, 32}
RECURSIVE SkipWhite(_, _, _)
SkipWhite(s, i, yes) == IF i <= Len(s) /\ (s[i] \in White) = yes THEN SkipWhite(s, i + 1, yes) ELSE i
RECURSIVE FindNL(_, _)
FindNL(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 10 THEN i ELSE FindNL(s, i + 1)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] \in White THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in White THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

(* -- escaping ------------------------------------------------------------------- *)
Cont(x) == x \in 128..191
PointLen(s, i) ==
    LET f == s[i]
        need == IF f < 128 THEN 1 ELSE IF f \in 192..223 THEN 2 ELSE IF f \in 224..239 THEN 3
                ELSE IF f \in 240..247 THEN 4 ELSE 1 IN
    IF i + need - 1 <= Len(s) /\ \A k \in 1..need - 1 : Cont(s[i + k]) THEN need ELSE 1
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE EscR(_, _, _, _, _)
EscR(kind, s, i, left, out) ==
    IF i > Len(s) THEN out
    ELSE IF left = 0 THEN out \o <<46, 46, 46>>
    ELSE LET c == s[i]
             n == PointLen(s, i)
             e == IF kind = "string" THEN
                     CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 13 -> <<92, 114>>
                       [] c = 10 -> <<92, 110>> [] c = 9 -> <<92, 116>>
                       [] c < 32 /\ c \notin {9, 10, 13} -> <<92, 120, Hex(c \div 16), Hex(Mod(c, 16))>>
                       [] OTHER -> SubSeq(s, i, i + n - 1)
                  ELSE CASE c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>>
                         [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] c = 38 -> <<38, 97, 109, 112, 59>>
                         [] OTHER -> SubSeq(s, i, i + n - 1) IN
         EscR(kind, s, i + n, left - 1, out \o e)
Escape(kind, s, max) == EscR(kind, s, 1, IF max = 0 THEN -1 ELSE max, <<>>)

(* A Windows command line, as the C run-time library takes it apart: the     *)
(* first argument of s, which must be the only one, or <<"none">>.           *)
RECURSIVE Slashes(_, _), Crt(_, _, _, _)
Slashes(s, i) == IF At(s, i) = 92 THEN 1 + Slashes(s, i + 1) ELSE 0
Rep92(n) == [k \in 1..n |-> 92]
Crt(s, i, inq, out) ==
    IF i > Len(s) THEN (IF inq THEN <<"none">> ELSE out)
    ELSE LET n == Slashes(s, i)
             nx == At(s, i + n) IN
         IF n > 0 THEN
             IF nx = 34 THEN
                 IF Mod(n, 2) = 0 THEN Crt(s, i + n, inq, out \o Rep92(n \div 2))
                 ELSE Crt(s, i + n + 1, inq, Append(out \o Rep92(n \div 2), 34))
             ELSE Crt(s, i + n, inq, out \o Rep92(n))
         ELSE IF nx = 34 THEN Crt(s, i + 1, ~inq, out)
         ELSE IF ~inq /\ nx \in {32, 9} THEN <<"none">>
         ELSE Crt(s, i + 1, inq, Append(out, nx))
CrtArg(s) == IF s = <<>> THEN <<"none">> ELSE Crt(s, 1, FALSE, <<>>)

(* -- format strings ----------------------------------------------------------------- *)
RECURSIVE FormatR(_, _, _, _, _)
FormatR(f, i, args, k, out) ==
    IF i > Len(f) THEN out
    ELSE IF f[i] = 123 /\ At(f, i + 1) = 125 THEN FormatR(f, i + 2, args, k + 1, out \o args[k])
    ELSE IF f[i] \in {123, 125} THEN FormatR(f, i + 2, args, k, Append(out, f[i]))
    ELSE FormatR(f, i + 1, args, k, Append(out, f[i]))
Format(f, args) == FormatR(f, 1, args, 1, <<>>)

(* -- the reader ------------------------------------------------------------------------ *)
VARIABLES text, pos
rvars == <<text, pos>>
RInit == text = <<>> /\ pos = 1
Open(t) == text' = t /\ pos' = 1
To(nx) == pos' = nx /\ UNCHANGED text
ReadInt(ty, radix, n, err, w) ==
    LET p == ParseInt(text, pos, ty, radix) IN
    n = p[3] - pos /\ err = p[2] /\ (~err => w = p[1]) /\ To(p[3])
ReadReal(radix, places, n, err, q) ==
    LET p == ParseReal(text, pos, radix) IN
    /\ n = p.next - pos /\ (p.vague \/ err = p.err) /\ To(p.next)
    /\ ~p.err => RealOk(p, radix, places, q)
ReadQuoted(single, n, err, codes, o) ==
    LET p == Quoted(text, pos, single) IN
    /\ n = p[3] - pos /\ codes = p[2] /\ err = (p[2] # <<>>) /\ To(p[3])
    /\ ~err => o = p[1]
ReadIdent(dollar, dash, n, ok, err) ==
    LET e == Ident(text, pos, dollar, dash) IN
    n = e - pos /\ ok = (e > pos) /\ err = ~ok /\ To(e)
ReadWhite(yes, n, o) ==
    LET e == SkipWhite(text, pos, yes) IN n = e - pos /\ o = SubSeq(text, pos, e - 1) /\ To(e)
ReadLine(n, err, o) ==
    LET k == FindNL(text, pos)
        e == IF k = 0 THEN Len(text) + 1 ELSE k + 1 IN
    n = e - pos /\ err = (k = 0) /\ o = SubSeq(text, pos, e - 1) /\ To(e)

(* -- checking the specification itself ---------------------------------------------------- *)
CONSTANTS Chars
Strings(n) == UNION {[1..k -> Chars] : k \in 0..n}
MCNext ==
    \/ \E t \in Strings(3) : pos = 1 /\ text = <<>> /\ Open(t)
    \/ pos <= Len(text) /\
       (\/ \E ty \in {"u8", "s8"}, r \in {2, 10, 16} : LET p == ParseInt(text, pos, ty, r) IN To(p[3])
        \/ To(ParseReal(text, pos, 10).next)
        \/ \E b \in BOOLEAN : To(Quoted(text, pos, b)[3])
        \/ \E b \in BOOLEAN : To(Ident(text, pos, b, ~b))
        \/ \E b \in BOOLEAN : To(SkipWhite(text, pos, b)))
MCSpec == RInit /\ [][MCNext]_rvars
InText == pos \in 1..Len(text) + 1
EscapeInverse == \A t \in Strings(4) :
    LET r == Quoted(<<34>> \o Escape("string", t, 0) \o <<34, 32>>, 1, FALSE) IN
    (\A k \in 1..Len(t) : t[k] >= 32 \/ t[k] \in {9, 10, 13}) => r[1] = t /\ r[2] = <<>>
NegInverse == \A w \in {Zero4, <<1, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<0, 0, 0, 32768>>, <<5, 9, 0, 1>>} : Neg4(Neg4(w)) = w
=============================================================================

--------------------------- MODULE StringAlgebra ---------------------------
(* The string types as values: what every operation of String, StringView   *)
(* and HybridString returns and what it leaves in the strings involved.     *)
(* A string is a sequence of bytes; registers S own their bytes, registers  *)
(* H may own them (HybridString).                                           *)
EXTENDS Naturals, Integers, Sequences

VARIABLES S, H, own
svars == <<S, H, own>>
Regs == 1..4
Hyb == 1..2

StrInit == /\ S = [r \in Regs |-> <<>>]
           /\ H = [k \in Hyb |-> <<>>]
           /\ own = [k \in Hyb |-> FALSE]
\* ------------------------------------------------------------ pure functions
Sub(s, from, n) == SubSeq(s, from + 1, from + n)          \* offsets count from 0
Left(s, n) == SubSeq(s, 1, n)
Right(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Shortened(s, n) == SubSeq(s, 1, Len(s) - n)
Rep(s, n) == [i \in 1..(Len(s) * n) |-> s[((i - 1) % Len(s)) + 1]]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
UpperB(b) == IF b \in 97..122 THEN b - 32 ELSE b
LowerB(b) == IF b \in 65..90 THEN b + 32 ELSE b
SwapB(b) == IF b = 97 THEN 98 ELSE IF b = 98 THEN 97 ELSE b   \* the filter used by the harness
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
White(b) == b \in {32, 9, 10, 13}
Digit(b) == b \in 48..57
Letter(b) == b \in 65..90 \/ b \in 97..122
Pred(p, b) == CASE p = "white" -> White(b) [] p = "digit" -> Digit(b) [] p = "letter" -> Letter(b)
Starts(s, p) == Len(p) <= Len(s) /\ Left(s, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ Right(s, Len(p)) = p
\* first / last index (from 0) at which T holds, -1 if none
First(s, from, T(_)) == LET I == {i \in (from + 1)..Len(s) : T(s[i])}
                        IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
Last(s, upto, T(_)) == LET I == {i \in 1..(upto + 1) : T(s[i])}
                       IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i >= j) - 1
TrimBy(s, T(_), l, r) ==
    LET a == IF l THEN (LET f == First(s, 0, LAMBDA b : ~T(b)) IN IF f < 0 THEN Len(s) ELSE f) ELSE 0
        z == IF r THEN Last(s, Len(s) - 1, LAMBDA b : ~T(b)) + 1 ELSE Len(s)
    IN IF a >= z THEN <<>> ELSE SubSeq(s, a + 1, z)
\* unsigned bytes, a proper prefix comes first
Cmp(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                 D == {i \in 1..n : a[i] # b[i]}
             IN IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
                ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>>
           ELSE IF Len(q) = 1 THEN q[1]
           ELSE LET m == Len(q) \div 2 IN Flat(SubSeq(q, 1, m)) \o Flat(SubSeq(q, m + 1, Len(q)))
Joined(sep, q) == Flat([i \in 1..(IF q = <<>> THEN 0 ELSE 2 * Len(q) - 1) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE sep])
\* the pieces between separators that are not empty
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] = sep THEN SplitFrom(s, sep, i + 1)
    ELSE LET f == First(s, i - 1, LAMBDA b : b = sep)
             e == IF f < 0 THEN Len(s) ELSE f
         IN <<SubSeq(s, i, e)>> \o SplitFrom(s, sep, e + 2)
Split(s, sep) == SplitFrom(s, sep, 1)
WithNul(s) == IF Len(s) > 0 /\ s[Len(s)] = 0 THEN s ELSE Append(s, 0)
WithoutNul(s) == IF Len(s) > 0 /\ s[Len(s)] = 0 THEN Shortened(s, 1) ELSE s
\* Well formed UTF-8 (structure): number of bytes of the character beginning at i, 0 if none
ULen(s, i) ==
    LET Cont(k) == i + k <= Len(s) /\ s[i + k] \in 128..191
    IN IF s[i] < 128 THEN 1
       ELSE IF s[i] \in 194..223 /\ Cont(1) THEN 2
       ELSE IF s[i] \in 224..239 /\ Cont(1) /\ Cont(2) THEN 3
       ELSE IF s[i] \in 240..244 /\ Cont(1) /\ Cont(2) /\ Cont(3) THEN 4
       ELSE 0
RECURSIVE RevU(_, _)
RevU(s, i) == IF i > Len(s) THEN <<>> ELSE RevU(s, i + ULen(s, i)) \o SubSeq(s, i, i + ULen(s, i) - 1)
RECURSIVE WellFormedFrom(_, _)
WellFormedFrom(s, i) == \/ i > Len(s)
                        \/ i <= Len(s) /\ ULen(s, i) > 0 /\ WellFormedFrom(s, i + ULen(s, i))
WellFormed(s) == WellFormedFrom(s, 1)
Count(s, b) == Len(SelectSeq(s, LAMBDA x : x = b))
SameBytes(a, b) == Len(a) = Len(b) /\ \A x \in 0..255 : Count(a, x) = Count(b, x)

\* ------------------------------------------------------------ actions
Put(d, v) == S' = [S EXCEPT ![d] = v] /\ UNCHANGED <<H, own>>
Assign(d, v) == Put(d, v)                                    \* from outside
Copy(d, a) == Put(d, S[a])                                   \* d = a is allowed
Move(d, a) == d # a /\ S' = [S EXCEPT ![d] = S[a], ![a] = <<>>] /\ UNCHANGED <<H, own>>
CopyPart(d, a, from, n) == from + n <= Len(S[a]) /\ Put(d, Sub(S[a], from, n))
Concat(d, a, b) == Put(d, S[a] \o S[b])
Append1(d, a) == Put(d, S[d] \o S[a])
Repeat(d, a, n) == Put(d, IF S[a] = <<>> THEN <<>> ELSE Rep(S[a], n))
Resize(d, n, fill) == Put(d, IF n <= Len(S[d]) THEN Left(S[d], n) ELSE S[d] \o [i \in 1..(n - Len(S[d])) |-> fill])
Clear(d) == Put(d, <<>>)
Poke(d, i, b) == i < Len(S[d]) /\ Put(d, [S[d] EXCEPT ![i + 1] = b])
Derive(op, d, a) == Put(d, CASE op = "upper" -> Map(S[a], UpperB) [] op = "lower" -> Map(S[a], LowerB)
                             [] op = "rev" -> Rev(S[a]) [] op = "filter" -> Map(S[a], SwapB)
                             [] op = "withnul" -> WithNul(S[a]) [] op = "withoutnul" -> WithoutNul(S[a])
                             [] op = "revutf8" -> RevU(S[a], 1))
RevBad(d, a, v) == ~WellFormed(S[a]) /\ SameBytes(S[a], v) /\ Put(d, v)
Trim(d, a, p, l, r) == Put(d, TrimBy(S[a], LAMBDA b : Pred(p, b), l, r))
Join(d, sep, q) == Put(d, Joined(S[sep], [i \in 1..Len(q) |-> S[q[i]]]))
Keep == UNCHANGED svars
\* hybrids
HSet(k, v, o) == H' = [H EXCEPT ![k] = v] /\ own' = [own EXCEPT ![k] = o] /\ UNCHANGED S
HTake(k, a) == H' = [H EXCEPT ![k] = S[a]] /\ own' = [own EXCEPT ![k] = TRUE] /\ S' = [S EXCEPT ![a] = <<>>]
HCopy(k, j) == H' = [H EXCEPT ![k] = H[j]] /\ own' = [own EXCEPT ![k] = own[j]] /\ UNCHANGED S
HMove(k, j) == /\ k # j /\ H' = [H EXCEPT ![k] = H[j], ![j] = <<>>]
               /\ own' = [own EXCEPT ![k] = own[j], ![j] = FALSE] /\ UNCHANGED S
\* an owner gives its bytes away, a view is copied
HGive(d, k) == /\ S' = [S EXCEPT ![d] = H[k]]
               /\ IF own[k] THEN H' = [H EXCEPT ![k] = <<>>] /\ own' = [own EXCEPT ![k] = FALSE]
                  ELSE UNCHANGED <<H, own>>
=============================================================================

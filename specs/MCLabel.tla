------------------------------- MODULE MCLabel ------------------------------
(* Labels as offsets into an append-only pool of length-prefixed strings,   *)
(* lengths written in groups (here of 1 bit, most significant first, all    *)
(* but the last marked). Refines LabelSpec.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Strings, MaxPool
AllStrings == {<<>>, <<0>>, <<2>>, <<0, 0>>, <<2, 0>>, <<0, 0, 0>>, <<2, 3, 0, 1>>, <<0, 1, 0, 0, 2>>}
VARIABLES Pool, L, A
Abs == INSTANCE LabelSpec
RECURSIVE Groups(_)
Groups(n) == IF n < 2 THEN <<n>> ELSE Append(Groups(n \div 2), n % 2)
Encode(n) == LET g == Groups(n) IN [i \in 1..Len(g) |-> g[i] + (IF i < Len(g) THEN 2 ELSE 0)]
RECURSIVE Decode(_, _, _)                 \* <<length, offset of the first byte>>
Decode(p, at, v) == LET w == v + (p[at] % 2) IN IF p[at] < 2 THEN <<w, at + 1>> ELSE Decode(p, at + 1, 2 * w)
Read(p, x) == LET d == Decode(p, x + 1, 0) IN SubSeq(p, d[2], d[2] + d[1] - 1)
Init == Pool = <<0>> /\ Abs!LInit
Matches(s) == {x \in Abs!Labels : Read(Pool, x) = s}
Insert(s) == IF Matches(s) # {} THEN UNCHANGED <<Pool, L, A>>
             ELSE /\ Len(Pool) < MaxPool /\ Pool' = Pool \o Encode(Len(s)) \o s
                  /\ L' = [t \in DOMAIN L \cup {s} |-> IF t = s THEN Len(Pool) ELSE L[t]] /\ UNCHANGED A
Next == \E s \in Strings : Insert(s)
Spec == Init /\ [][Next]_<<Pool, L, A>>
EveryLabelReads == \A s \in DOMAIN L : Read(Pool, L[s]) = s
EmptyLabel == Read(Pool, 0) = <<>>
Refines == [][\E s \in DOMAIN L' : Abs!Insert(s, L'[s])]_<<L, A>>
=============================================================================

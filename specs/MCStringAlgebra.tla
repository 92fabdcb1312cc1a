-------------------------- MODULE MCStringAlgebra --------------------------
(* Laws of the operations over all short strings, and the ownership rules   *)
(* over all short histories.                                                *)
EXTENDS StringAlgebra, FiniteSets
CONSTANTS Sigma, MaxLen
Strs == UNION {[1..n -> Sigma] : n \in 0..MaxLen}
Two == {<<>>, <<97>>}
VARIABLE n
Init == StrInit /\ n = 0
Next == /\ n < 4 /\ n' = n + 1
        /\ \/ \E d \in 1..2, v \in Two : Assign(d, v)
           \/ \E d, a \in 1..2 : Copy(d, a) \/ Move(d, a) \/ Append1(d, a)
           \/ \E k \in Hyb, v \in Two : HSet(k, v, FALSE)
           \/ \E k \in Hyb, a \in 1..2 : HTake(k, a) \/ HGive(a, k)
           \/ \E k, j \in Hyb : HCopy(k, j) \/ HMove(k, j)
Spec == Init /\ [][Next]_<<svars, n>>
\* bytes are never lost or invented by a move
MoveKeeps == [][\A d, a \in 1..2 : Move(d, a) => S'[d] = S[a] /\ S'[a] = <<>>]_<<svars, n>>
Laws ==
    \A s \in Strs :
       /\ Rev(Rev(s)) = s
       /\ Map(Map(s, UpperB), LowerB) = Map(s, LowerB)
       /\ TrimBy(TrimBy(s, White, TRUE, TRUE), White, TRUE, TRUE) = TrimBy(s, White, TRUE, TRUE)
       /\ TrimBy(TrimBy(s, White, TRUE, FALSE), White, FALSE, TRUE) = TrimBy(s, White, TRUE, TRUE)
       /\ WithoutNul(WithNul(s)) = IF Ends(s, <<0>>) THEN Shortened(s, 1) ELSE s
       /\ \A i \in 1..Len(Split(s, 32)) : Len(Split(s, 32)[i]) > 0 /\ ~\E j \in 1..Len(Split(s, 32)[i]) : Split(s, 32)[i][j] = 32
       /\ Flat(Split(s, 32)) = SelectSeq(s, LAMBDA b : b # 32)
       /\ Split(Joined(<<32>>, Split(s, 32)), 32) = Split(s, 32)
       /\ WellFormed(s) => RevU(RevU(s, 1), 1) = s /\ SameBytes(s, RevU(s, 1))
       /\ \A t \in Strs :
            /\ Cmp(s, t) = -Cmp(t, s) /\ (Cmp(s, t) = 0 <=> s = t)
            /\ Starts(s \o t, s) /\ Ends(s \o t, t)
            /\ (Cmp(s, s \o t) <= 0)
Trans == \A a, b, c \in {x \in Strs : Len(x) <= 2} : Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
ASSUME Laws
ASSUME Trans
=============================================================================

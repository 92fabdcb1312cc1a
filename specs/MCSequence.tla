----------------------------- MODULE MCSequence -----------------------------
(* The block structure: blocks of BS items, a popped-empty tail block is    *)
(* dropped, a reserved block may stay empty. Refines SequenceSpec.          *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS BS, MaxLen, Vals
VARIABLES B, C                         \* B: blocks; C: cursor -> <<block, offset>> or <<0,0>>
Cur == 0..2
RECURSIVE Flat(_)
Flat(b) == IF b = <<>> THEN <<>> ELSE Head(b) \o Flat(Tail(b))
RECURSIVE Before(_, _)
Before(b, n) == IF n = 1 THEN 0 ELSE Len(b[n - 1]) + Before(b, n - 1)
Abs == INSTANCE SequenceSpec WITH Q <- Flat(B), C <- [k \in Cur |-> IF C[k][1] = 0 THEN -1 ELSE Before(B, C[k][1]) + C[k][2]]
None == [k \in Cur |-> <<0, 0>>]
Init == B = << <<>> >> /\ C = None
Room == Len(B[Len(B)]) < BS
Reserve == ~Room /\ B' = Append(B, <<>>) /\ UNCHANGED C
App(v) == Len(Flat(B)) < MaxLen /\ Room /\ B' = [B EXCEPT ![Len(B)] = Append(@, v)] /\ UNCHANGED C
RECURSIVE Drop(_, _)
Drop(b, n) == LET t == b[Len(b)]  k == IF n < Len(t) THEN n ELSE Len(t)
                  c == [b EXCEPT ![Len(b)] = SubSeq(t, 1, Len(t) - k)]
              IN IF Len(c[Len(c)]) > 0 \/ Len(c) = 1 THEN c
                 ELSE IF n - k = 0 THEN SubSeq(c, 1, Len(c) - 1) ELSE Drop(SubSeq(c, 1, Len(c) - 1), n - k)
PopN(n) == n >= 1 /\ n <= Len(Flat(B)) /\ B' = Drop(B, n) /\ C' = None
Mark(k) == C' = [C EXCEPT ![k] = <<Len(B), Len(B[Len(B)])>>] /\ UNCHANGED B
\* a cursor at the end of a block goes on in the next one
Step(k) == /\ C[k][1] > 0 /\ UNCHANGED B
           /\ LET b == C[k][1]  o == C[k][2]
              IN IF o < Len(B[b]) THEN C' = [C EXCEPT ![k] = <<b, o + 1>>]
                 ELSE b < Len(B) /\ Len(B[b + 1]) > 0 /\ C' = [C EXCEPT ![k] = <<b + 1, 1>>]
Next == Reserve \/ (\E v \in Vals : App(v)) \/ (\E n \in 1..MaxLen : PopN(n)) \/ \E k \in {0} : Mark(k) \/ Step(k)
Spec == Init /\ [][Next]_<<B, C>>
Refines == [][\/ UNCHANGED <<Flat(B), Abs!svars>>
              \/ \E v \in Vals : Abs!App(<<v>>)
              \/ \E n \in 1..MaxLen : Abs!PopN(n)
              \/ \E k \in Cur : Abs!Mark(k, Len(Flat(B))) \/ \E v \in Vals : Abs!ReadAt(k, <<v>>)]_<<B, C>>
OnlyTailEmpty == \A i \in 1..Len(B) : B[i] = <<>> => i = Len(B)
=============================================================================

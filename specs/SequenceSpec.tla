---------------------------- MODULE SequenceSpec ----------------------------
(* Sequence: a growing list of items whose addresses never change, with     *)
(* positions (cursors) that stay valid while items are appended, and read   *)
(* everything that is appended behind them.                                 *)
EXTENDS Naturals, Integers, Sequences
VARIABLES Q, C                       \* items; cursor -> position, -1 if unset
Cur == 0..2
svars == <<Q, C>>
SInit == Q = <<>> /\ C = [k \in Cur |-> -1]
NoCur == [k \in Cur |-> -1]
App(v) == Q' = Q \o v /\ UNCHANGED C
PopN(n) == n <= Len(Q) /\ Q' = SubSeq(Q, 1, Len(Q) - n) /\ C' = NoCur
Trunc(p) == p <= Len(Q) /\ Q' = SubSeq(Q, 1, p) /\ C' = NoCur
Empty == Q' = <<>> /\ C' = NoCur
Mark(k, p) == p \in 0..Len(Q) /\ C' = [C EXCEPT ![k] = p] /\ UNCHANGED Q
\* reading through a cursor delivers items in order and moves it behind them
ReadAt(k, v) == /\ C[k] >= 0 /\ C[k] + Len(v) <= Len(Q)
                /\ v = SubSeq(Q, C[k] + 1, C[k] + Len(v))
                /\ C' = [C EXCEPT ![k] = @ + Len(v)] /\ UNCHANGED Q
\* a view starts at the cursor and is empty only at the end
ViewAt(k, v, none) == ReadAt(k, v) /\ (none <=> C[k] = Len(Q)) /\ (none => v = <<>>)
Back(k, v) == C[k] > 0 /\ v = Q[C[k]] /\ C' = [C EXCEPT ![k] = @ - 1] /\ UNCHANGED Q
=============================================================================

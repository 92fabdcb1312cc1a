---------------------------- MODULE MCArraySpec ----------------------------
(* Items are never duplicated, lost or invented: over all short histories   *)
(* with unique item numbers.                                                *)
EXTENDS ArraySpec
CONSTANT MaxOps
VARIABLES n, next
vars == <<A, n, next>>
Init == ArrInit /\ n = 0 /\ next = 1
Fresh == next' = next + 1
Same == next' = next
R2 == 1..2
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E d \in R2 : Append1(d, next) /\ Fresh
           \/ \E d, a \in R2 : Move(d, a) /\ Same
           \/ \E d \in R2 : ExtendMove(d, 3 - d) /\ Same
           \/ \E d \in R2, p \in 0..2, k \in 0..2 : (Insert(d, p, k) \/ Erase(d, p, k) \/ EraseQuick(d, p, k)) /\ Same
           \/ \E d \in R2, k \in 0..3 : (Resize(d, k) \/ Pop(d, k)) /\ Same
Spec == Init /\ [][Next]_vars
All == A[1] \o A[2] \o A[3]
\* only moves and appends were used: no item exists twice
Unique == \A i, j \in 1..Len(All) : i # j => All[i] # All[j] \/ All[i] \in {0, Gone}
Known == \A i \in 1..Len(All) : All[i] < next
\* erasing quickly keeps exactly the items that erasing keeps
Quick == [][\A d \in R2, p \in 0..2, k \in 0..2 :
              EraseQuick(d, p, k) => Perm(A'[d], Sub(A[d], 0, p) \o Sub(A[d], p + k, Len(A[d]) - p - k))]_vars
=============================================================================

------------------------------- MODULE MCPool -------------------------------
(* The free list as the code keeps it: a linked list through the free       *)
(* slots, last freed first, sorted when somebody iterates. Refines          *)
(* PoolSpec: no slot is handed out twice, none is lost.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS MaxLen
VARIABLES S, H, B, F, sorted          \* F: free slots in list order
Abs == INSTANCE PoolSpec
Init == Abs!PInit /\ F = <<>> /\ sorted = TRUE
New(h) == IF F # <<>>
          THEN S' = [S EXCEPT ![Head(F) + 1] = 1] /\ F' = Tail(F) /\ UNCHANGED <<H, B, sorted>>
          ELSE Len(S) < MaxLen /\ S' = Append(S, 1) /\ UNCHANGED <<H, B, F, sorted>>
Free(s, f, x) == IF x = -1 THEN S' = s /\ F' = f /\ UNCHANGED sorted
                 ELSE S' = [s EXCEPT ![x + 1] = 0] /\ F' = <<x>> \o f /\ sorted' = FALSE
Del(x) == x + 1 \in Abs!Live /\ x \notin Abs!Owned /\ Free(S, F, x) /\ UNCHANGED <<H, B>>
Assign(h, x) == /\ x = -1 \/ (x + 1 \in Abs!Live /\ x \notin Abs!Owned)
                /\ Free(S, F, H[h]) /\ H' = [H EXCEPT ![h] = x] /\ UNCHANGED B
MoveH(h, g) == h # g /\ Free(S, F, H[h]) /\ H' = [H EXCEPT ![h] = H[g], ![g] = -1] /\ UNCHANGED B
Range(f) == {f[i] : i \in 1..Len(f)}
RECURSIVE Sort(_)
Sort(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE y \in X : \A z \in X : y <= z IN <<m>> \o Sort(X \ {m})
Iterate == ~sorted /\ F # <<>> /\ F' = Sort(Range(F)) /\ sorted' = TRUE /\ UNCHANGED <<S, H, B>>
\* what iterating delivers: walk the slots and the list side by side
RECURSIVE Walk(_, _)
Walk(i, f) == IF i = Len(S) THEN <<>>
              ELSE IF f # <<>> /\ f[1] = i THEN Walk(i + 1, Tail(f)) ELSE <<i>> \o Walk(i + 1, f)
Next == New(0) \/ (\E x \in 0..MaxLen : Del(x)) \/ Iterate
        \/ (\E h \in {0, 1}, x \in -1..MaxLen : Assign(h, x)) \/ \E h, g \in {0, 1} : MoveH(h, g)
Spec == Init /\ [][Next]_<<S, H, B, F, sorted>>
FreeListExact == Range(F) = {i - 1 : i \in (1..Len(S)) \ Abs!Live} /\ Cardinality(Range(F)) = Len(F)
IterExact == sorted => Walk(0, F) = Abs!Listing
OwnedLive == \A h \in 0..2 : H[h] # -1 => H[h] + 1 \in Abs!Live /\ \A g \in 0..2 : g # h => H[g] # H[h]
Refines == [][\/ UNCHANGED <<S, H, B>> \/ (\E x \in 0..MaxLen : Abs!New(x, 1) \/ Abs!Del(x))
              \/ (\E h \in {0, 1}, x \in -1..MaxLen : Abs!Assign(h, x)) \/ \E h, g \in {0, 1} : Abs!MoveH(h, g)]_<<S, H, B>>
=============================================================================

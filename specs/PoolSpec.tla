------------------------------ MODULE PoolSpec ------------------------------
(* Pool: items live in numbered slots. A live item keeps its number; a new  *)
(* item gets a number no live item has, and a free slot is used before the  *)
(* pool grows. BigPool: an append-only array whose items never move.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES S, H, B     \* slots, 0 = free; handle -> slot, -1 = none; BigPool items
Hs == 0..2
NoH == [h \in Hs |-> -1]
PInit == S = <<>> /\ H = NoH /\ B = <<>>
Live == {i \in 1..Len(S) : S[i] # 0}
Put(s, x, v) == IF x = Len(s) THEN Append(s, v) ELSE [s EXCEPT ![x + 1] = v]
New(x, v) == /\ \/ x \in 0..(Len(S) - 1) /\ S[x + 1] = 0
                \/ x = Len(S) /\ Cardinality(Live) = Len(S)
             /\ S' = Put(S, x, v) /\ UNCHANGED <<H, B>>
Owned == {H[h] : h \in Hs}
Del(x) == x + 1 \in Live /\ x \notin Owned /\ S' = [S EXCEPT ![x + 1] = 0] /\ UNCHANGED <<H, B>>
Clear == Owned = {-1} /\ S' = <<>> /\ UNCHANGED <<H, B>>
\* handles own the item they were assigned; -1 assigns nothing
Freed(s, x) == IF x = -1 THEN s ELSE [s EXCEPT ![x + 1] = 0]
Assign(h, x) == /\ x = -1 \/ (x + 1 \in Live /\ x \notin Owned)
                /\ S' = Freed(S, H[h]) /\ H' = [H EXCEPT ![h] = x] /\ UNCHANGED B
MoveH(h, g) == h # g /\ S' = Freed(S, H[h]) /\ H' = [H EXCEPT ![h] = H[g], ![g] = -1] /\ UNCHANGED B
\* live items in slot order
RECURSIVE Idx(_, _)
Idx(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = 0 THEN Idx(s, i + 1) ELSE <<i - 1>> \o Idx(s, i + 1)
Listing == Idx(S, 1)
Vals(l) == [i \in 1..Len(l) |-> S[l[i] + 1]]
BApp(v) == B' = B \o v /\ UNCHANGED <<S, H>>
BReset == B' = <<>> /\ UNCHANGED <<S, H>>
=============================================================================

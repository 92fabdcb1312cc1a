---------------------------- MODULE OrderedSpec ----------------------------
(* The ordered container (B-tree): a sequence of items <<key, id>> sorted   *)
(* by key, where an item inserted among equals goes behind them (a queue).  *)
EXTENDS Naturals, Integers, Sequences
VARIABLE T
OInit == T = <<>>
Below(k) == Len(SelectSeq(T, LAMBDA x : x[1] < k))       \* items with a smaller key
UpTo(k) == Len(SelectSeq(T, LAMBDA x : x[1] <= k))
Insert(k, id) == T' = SubSeq(T, 1, UpTo(k)) \o <<<<k, id>>>> \o SubSeq(T, UpTo(k) + 1, Len(T))
RemoveAt(p, id) == p \in 1..Len(T) /\ T[p][2] = id /\ T' = SubSeq(T, 1, p - 1) \o SubSeq(T, p + 1, Len(T))
RemoveId(id) == \E p \in 1..Len(T) : RemoveAt(p, id)
Clear == T' = <<>>
IdAt(p) == IF p \in 1..Len(T) THEN T[p][2] ELSE -1
LastLess(k, id) == id = IdAt(Below(k)) /\ UNCHANGED T
FirstGE(k, id) == id = IdAt(Below(k) + 1) /\ UNCHANGED T
Ids == [i \in 1..Len(T) |-> T[i][2]]
Sorted == \A i \in 1..(Len(T) - 1) : T[i][1] <= T[i + 1][1]
=============================================================================

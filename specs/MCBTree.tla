------------------------------ MODULE MCBTree ------------------------------
(* Design of the B-tree: leaves are sequences of items, inner nodes are     *)
(* sequences of children [leaf |-> FALSE, kids |-> ..]. A full node splits  *)
(* in the middle; after a removal a node that fits into a neighbour under   *)
(* the same parent is merged with it, an empty one disappears.              *)
EXTENDS OrderedSpec, TLC
CONSTANTS Cap, KeySet, MaxItems
VARIABLES root, nid
bvars == <<root, nid, T>>
Leaf(s) == [leaf |-> TRUE, s |-> s]
Inner(s) == [leaf |-> FALSE, s |-> s]
RECURSIVE Items(_), First(_), Depth(_)
Items(n) == IF n.leaf THEN n.s
            ELSE LET F[i \in 0..Len(n.s)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o Items(n.s[i]) IN F[Len(n.s)]
First(n) == IF n.leaf THEN n.s[1][1] ELSE First(n.s[1])
Depth(n) == IF n.leaf THEN 1 ELSE 1 + Depth(n.s[1])
InsAt(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))
DelAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Mk(n, s) == IF n.leaf THEN Leaf(s) ELSE Inner(s)
\* one node, or two when it does not fit: the full node is split first
Fit(n, s, p, x) ==
    IF Len(s) < Cap THEN <<Mk(n, InsAt(s, p, x))>>
    ELSE LET mid == Cap \div 2 IN
         IF p - 1 > mid THEN <<Mk(n, SubSeq(s, 1, mid)), Mk(n, InsAt(SubSeq(s, mid + 1, Cap), p - mid, x))>>
         ELSE <<Mk(n, InsAt(SubSeq(s, 1, mid), p, x)), Mk(n, SubSeq(s, mid + 1, Cap))>>
RECURSIVE Ins(_, _)
Ins(n, x) ==
    IF n.leaf
    THEN Fit(n, n.s, 1 + Len(SelectSeq(n.s, LAMBDA y : y[1] <= x[1])), x)
    ELSE LET L == {i \in 1..Len(n.s) : First(n.s[i]) <= x[1]}
             c == IF L = {} THEN 1 ELSE CHOOSE i \in L : \A j \in L : i >= j
             r == Ins(n.s[c], x)
             s1 == [n.s EXCEPT ![c] = r[1]]
         IN IF Len(r) = 1 THEN <<Inner(s1)>> ELSE Fit(n, s1, c + 1, r[2])
Size(n) == Len(n.s)
\* compaction of the children of one node after child c changed
Compact(s, c) ==
    IF Size(s[c]) = 0 THEN DelAt(s, c)
    ELSE IF c > 1 /\ Size(s[c]) + Size(s[c - 1]) <= Cap
    THEN DelAt([s EXCEPT ![c - 1] = Mk(s[c], s[c - 1].s \o s[c].s)], c)
    ELSE IF c < Len(s) /\ Size(s[c]) + Size(s[c + 1]) <= Cap
    THEN DelAt([s EXCEPT ![c] = Mk(s[c], s[c].s \o s[c + 1].s)], c + 1)
    ELSE s
RECURSIVE Rem(_, _)
Rem(n, p) ==                      \* remove the p-th item below n
    IF n.leaf THEN Leaf(DelAt(n.s, p))
    ELSE LET Sz(i) == Len(Items(n.s[i]))
             Pre[i \in 0..Len(n.s)] == IF i = 0 THEN 0 ELSE Pre[i - 1] + Sz(i)
             c == CHOOSE i \in 1..Len(n.s) : Pre[i - 1] < p /\ p <= Pre[i]
         IN Inner(Compact([n.s EXCEPT ![c] = Rem(@, p - Pre[c - 1])], c))
RECURSIVE Shrink(_)
Shrink(n) == IF ~n.leaf /\ Size(n) = 1 THEN n.s[1] ELSE n
Init == OInit /\ root = Leaf(<<>>) /\ nid = 0
DoIns == /\ Len(T) < MaxItems /\ nid < MaxItems + 2
         /\ \E k \in KeySet :
            /\ nid' = nid + 1
            /\ LET r == Ins(root, <<k, nid>>) IN root' = IF Len(r) = 1 THEN r[1] ELSE Inner(r)
            /\ Insert(k, nid)
DoRem == \E p \in 1..Len(T) :
            /\ LET r == Shrink(Rem(root, p)) IN root' = IF ~r.leaf /\ Size(r) = 0 THEN Leaf(<<>>) ELSE r
            /\ RemoveAt(p, IdAt(p)) /\ UNCHANGED nid
Next == DoIns \/ DoRem
Spec == Init /\ [][Next]_bvars
RECURSIVE Shape(_, _)
Shape(n, top) == /\ Size(n) <= Cap /\ (top \/ Size(n) >= 1)
                 /\ ~n.leaf => /\ \A i \in 1..Size(n) : Shape(n.s[i], FALSE)
                               /\ \A i, j \in 1..Size(n) : Depth(n.s[i]) = Depth(n.s[j])
Agrees == Items(root) = T
Shaped == Shape(root, TRUE)
=============================================================================

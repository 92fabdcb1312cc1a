------------------------------ MODULE Leapfrog ------------------------------
(* The design of the hash table: leapfrog probing with per-bucket chains    *)
(* kept in small deltas. Cells are 0..Size-1; cell c holds a key or none,   *)
(* first[b] is the distance from bucket b's own cell to the first cell of   *)
(* its chain (0: no chain), nxt[c] the distance from c to the next cell of  *)
(* the chain it is in (0: last). Only distances below MaxDelta fit.         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Keys, Size, MaxDelta, Limit, None
ASSUME MaxDelta > Limit
VARIABLES cell, first, nxt, set
lvars == <<cell, first, nxt, set>>
Cells == 0..(Size - 1)
Hash(k) == k % Size
M(i) == i % Size
Init == /\ cell = [c \in Cells |-> None] /\ first = [c \in Cells |-> 0]
        /\ nxt = [c \in Cells |-> 0] /\ set = {}

\* absolute (unwrapped) positions of the chain of bucket b
RECURSIVE Walk(_, _)
Walk(i, acc) == IF nxt[M(i)] = 0 \/ Len(acc) > Size THEN acc ELSE Walk(i + nxt[M(i)], Append(acc, i + nxt[M(i)]))
Chain(b) == IF first[b] = 0 THEN <<>> ELSE Walk(b + first[b], <<b + first[b]>>)
\* where a key is found: its own cell or its bucket's chain
Place(k) == LET b == Hash(k)  ch == Chain(b)
            IN IF cell[b] = k THEN {b} ELSE {ch[j] : j \in {j \in 1..Len(ch) : cell[M(ch[j])] = k}}
Found(k) == Place(k) # {}

End(b) == LET ch == Chain(b) IN IF ch = <<>> THEN b ELSE ch[Len(ch)]
Insert(k) ==
    /\ ~Found(k)
    /\ LET b == Hash(k) IN
       IF cell[b] = None /\ first[b] = 0
       THEN cell' = [cell EXCEPT ![b] = k] /\ UNCHANGED <<first, nxt>>
       ELSE LET e == End(b)
                probes == LET r == Size - 1 - (e - b) IN IF r < Limit THEN r ELSE Limit
                free == {i \in (e + 1)..(e + probes) : cell[M(i)] = None}
            IN /\ free # {}              \* otherwise the table grows
               /\ LET i == CHOOSE i \in free : \A j \in free : i <= j IN
                  /\ cell' = [cell EXCEPT ![M(i)] = k]
                  /\ IF e = b THEN first' = [first EXCEPT ![b] = i - e] /\ UNCHANGED nxt
                     ELSE nxt' = [nxt EXCEPT ![M(e)] = i - e] /\ UNCHANGED first
    /\ set' = set \cup {k}

\* Unlink position i of a chain; p is the previous position, "first" or "next" link.
RECURSIVE Unlink(_, _, _, _, _)
Unlink(i, p, kind, cl, nx) ==
    \* -> <<cells, next deltas, value for the link that led here (or -1: unchanged)>>
    IF nx[M(i)] = 0
    THEN [c |-> [cl EXCEPT ![M(i)] = None], n |-> nx, link |-> 0, at |-> i]
    ELSE LET j == i + nx[M(i)] IN
         IF kind # "none" /\ j - p < MaxDelta
         THEN [c |-> [cl EXCEPT ![M(i)] = None], n |-> [nx EXCEPT ![M(i)] = 0], link |-> j - p, at |-> i]
         ELSE \* too far: move the next key here and remove that one instead
              LET r == Unlink(j, i, "next", [cl EXCEPT ![M(i)] = cl[M(j)]], nx)
              IN [c |-> r.c, n |-> [r.n EXCEPT ![M(i)] = r.link], link |-> nx[M(i)] * 0 + (IF kind = "none" THEN 0 ELSE i - p), at |-> i]
Erase(k) ==
    /\ Found(k)
    /\ LET b == Hash(k) IN
       IF cell[b] = k
       THEN cell' = [cell EXCEPT ![b] = None] /\ UNCHANGED <<first, nxt>>
       ELSE LET ch == Chain(b)
                j == CHOOSE j \in 1..Len(ch) : cell[M(ch[j])] = k
                i == ch[j]
                p == IF j = 1 THEN b ELSE ch[j - 1]
                r == Unlink(i, p, IF j = 1 THEN "first" ELSE "next", cell, nxt)
            IN /\ cell' = r.c
               /\ IF j = 1 THEN first' = [first EXCEPT ![b] = r.link] /\ nxt' = r.n
                  ELSE nxt' = [r.n EXCEPT ![M(p)] = r.link] /\ UNCHANGED first
    /\ set' = set \ {k}
Next == \E k \in Keys : Insert(k) \/ Erase(k)
Spec == Init /\ [][Next]_lvars

\* exactly the keys inserted and not erased are found, each at one place
Exact == \A k \in Keys : (k \in set) = Found(k) /\ Cardinality(Place(k)) <= 1
NoStray == \A c \in Cells : cell[c] # None => cell[c] \in set
Population == Cardinality({c \in Cells : cell[c] # None}) = Cardinality(set)
ChainsOwn == \A b \in Cells : \A j \in 1..Len(Chain(b)) : LET c == cell[M(Chain(b)[j])] IN c # None /\ Hash(c) = b
Deltas == \A c \in Cells : first[c] < MaxDelta /\ nxt[c] < MaxDelta
=============================================================================

------------------------------ MODULE MapSpec ------------------------------
(* Hash maps (and ordered maps) as finite functions from keys to values.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLE M
Maps == 1..2
Empty == [x \in {} |-> 0]
MapInit == M = [m \in Maps |-> Empty]
Has(m, k) == k \in DOMAIN M[m]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Size(m) == Cardinality(DOMAIN M[m])
\* what was there before (found, old), and the value stored afterwards
InsertOrFind(m, k, v, found, old) ==
    /\ found = Has(m, k) /\ (found => old = M[m][k])
    /\ M' = [M EXCEPT ![m] = With(@, k, v)]
Find(m, k, found, v) == found = Has(m, k) /\ (found => v = M[m][k]) /\ UNCHANGED M
Erase(m, k, found) == found = Has(m, k) /\ M' = [M EXCEPT ![m] = Without(@, k)]
Renew(m) == M' = [M EXCEPT ![m] = Empty]
MoveTo(d, s) == d # s /\ M' = [M EXCEPT ![d] = M[s], ![s] = Empty]
\* ks, vs: what an iteration delivered, in any order, each once
Iterate(m, ks, vs, n, empty) ==
    /\ n = Size(m) /\ empty = (n = 0) /\ Len(ks) = n
    /\ {ks[i] : i \in 1..n} = DOMAIN M[m]
    /\ \A i \in 1..n : vs[i] = M[m][ks[i]]
    /\ UNCHANGED M
=============================================================================

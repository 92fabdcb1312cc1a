------------------------------- MODULE OwnSpec -------------------------------
(* Smart pointers: an object is destroyed exactly when its last owner lets   *)
(* go of it, neither sooner nor later. Objects may own further objects.      *)
(* Kinds of slots: O unique owners, R counted references, D strong and W     *)
(* weak references of dual-counted objects, F functors, S switches, P        *)
(* optional owners. Objects are numbered in the order of creation.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES O, R, D, W, F, S, P, N   \* slot -> object, 0 = none; N[x]: the object that object x owns
VARIABLE L                         \* <<x, y>>: object x keeps a weak reference to y
ovars == <<O, R, D, W, F, S, P, N, L>>
K == 0..2
E == [k \in K |-> 0]
NoP == <<0, FALSE>>
OInit == O = E /\ R = E /\ D = E /\ W = E /\ F = E /\ S = [k \in K |-> <<0, 0>>] /\ P = [k \in K |-> NoP] /\ N = <<>> /\ L = {}
Vals(f) == {f[k] : k \in K} \ {0}
RECURSIVE Close(_, _)
Close(X, n) == LET Y == X \cup ({n[x] : x \in X} \ {0}) IN IF Y = X THEN X ELSE Close(Y, n)
Roots(o, r, d, w, f, s, p) ==
    Vals(o) \cup Vals(r) \cup Vals(d) \cup Vals(w) \cup Vals(f)
    \cup ({s[k][2] : k \in K} \ {0}) \cup {p[k][1] : k \in {j \in K : p[j][2]}}
Strong == Close(Roots(O, R, D, E, F, S, P), N)  \* objects that are owned
RECURSIVE CloseL(_, _)
CloseL(X, lk) == LET Y == X \cup {p[2] : p \in {q \in lk : q[1] \in X}} IN IF Y = X THEN X ELSE CloseL(Y, lk)
Alive == CloseL(Strong \cup Vals(W), L)          \* objects whose memory is still there
Fresh == Len(N) + 1
Reaches(a, b) == b \in Close({a}, N)
\* unique owners
ONew(k) == O' = [O EXCEPT ![k] = Fresh] /\ N' = Append(N, 0) /\ UNCHANGED <<R, D, W, F, S, P>>
OMove(k, j) == /\ k # j /\ O' = [O EXCEPT ![k] = O[j], ![j] = 0] /\ UNCHANGED <<R, D, W, F, S, P, N>>
OPush(k) == O' = [O EXCEPT ![k] = Fresh] /\ N' = Append(N, O[k]) /\ UNCHANGED <<R, D, W, F, S, P>>
OPop(k) == O[k] # 0 /\ O' = [O EXCEPT ![k] = N[O[k]]] /\ N' = [N EXCEPT ![O[k]] = 0] /\ UNCHANGED <<R, D, W, F, S, P>>
OClear(k) == O' = [O EXCEPT ![k] = 0] /\ UNCHANGED <<R, D, W, F, S, P, N>>
\* counted references
RNew(k) == R' = [R EXCEPT ![k] = Fresh] /\ N' = Append(N, 0) /\ UNCHANGED <<O, D, W, F, S, P>>
RCopy(k, j) == R' = [R EXCEPT ![k] = R[j]] /\ UNCHANGED <<O, D, W, F, S, P, N>>
RMove(k, j) == k # j /\ R' = [R EXCEPT ![k] = R[j], ![j] = 0] /\ UNCHANGED <<O, D, W, F, S, P, N>>
RClear(k) == R' = [R EXCEPT ![k] = 0] /\ UNCHANGED <<O, D, W, F, S, P, N>>
RLink(k, j) == /\ R[k] # 0 /\ (R[j] # 0 => ~Reaches(R[j], R[k]))
               /\ N' = [N EXCEPT ![R[k]] = R[j]] /\ UNCHANGED <<O, R, D, W, F, S, P>>
RPopCopy(k) == R[k] # 0 /\ R' = [R EXCEPT ![k] = N[R[k]]] /\ UNCHANGED <<O, D, W, F, S, P, N>>
RPopMove(k) == /\ R[k] # 0 /\ R' = [R EXCEPT ![k] = N[R[k]]] /\ N' = [N EXCEPT ![R[k]] = 0]
               /\ UNCHANGED <<O, D, W, F, S, P>>
\* how many references an object has: slots and links of living objects
RefsTo(r, strong, n, x) == Cardinality({k \in K : r[k] = x}) + Cardinality({y \in strong : n[y] = x})
RCount(x) == RefsTo(R, Strong, N, x)
\* strong and weak references
DNew(k) == D' = [D EXCEPT ![k] = Fresh] /\ N' = Append(N, 0) /\ UNCHANGED <<O, R, W, F, S, P>>
DCopy(k, j) == D' = [D EXCEPT ![k] = D[j]] /\ UNCHANGED <<O, R, W, F, S, P, N>>
DMove(k, j) == k # j /\ D' = [D EXCEPT ![k] = D[j], ![j] = 0] /\ UNCHANGED <<O, R, W, F, S, P, N>>
WTake(k, j) == W' = [W EXCEPT ![k] = D[j]] /\ UNCHANGED <<O, R, D, F, S, P, N>>
WCopy(k, j) == (W[j] \in {0} \cup Vals(D)) /\ W' = [W EXCEPT ![k] = W[j]] /\ UNCHANGED <<O, R, D, F, S, P, N>>
WMove(k, j) == k # j /\ W' = [W EXCEPT ![k] = W[j], ![j] = 0] /\ UNCHANGED <<O, R, D, F, S, P, N>>
WClear(k) == W' = [W EXCEPT ![k] = 0] /\ UNCHANGED <<O, R, D, F, S, P, N>>
\* an object keeps a weak reference to an older one or to itself; the latter it
\* drops when its last strong reference goes, the former with its memory
Kept(x) == LET ps == {p \in L : p[1] = x} IN IF ps = {} THEN 0 ELSE LET y == (CHOOSE p \in ps : TRUE)[2] IN IF y = x /\ x \notin Strong THEN 0 ELSE y
NotFrom(x) == {p \in L : p[1] # x}
DKeep(k, j) == /\ D[k] # 0 /\ D[j] # 0 /\ D[j] <= D[k] /\ L' = NotFrom(D[k]) \cup {<<D[k], D[j]>>}
               /\ UNCHANGED <<O, R, D, W, F, S, P, N>>
WPopMove(k) == W[k] # 0 /\ W' = [W EXCEPT ![k] = Kept(W[k])] /\ L' = NotFrom(W[k]) /\ UNCHANGED <<O, R, D, F, S, P, N>>
\* weak references to y: in slots and kept by objects that still have memory
WCount(y, w, lk, alive) == Cardinality({j \in K : w[j] = y}) + Cardinality({p \in lk : p[2] = y /\ p[1] \in alive})
\* functors own what their callable captured
FNew(k) == F' = [F EXCEPT ![k] = Fresh] /\ N' = Append(N, 0) /\ UNCHANGED <<O, R, D, W, S, P>>
FMove(k, j) == k # j /\ F' = [F EXCEPT ![k] = F[j], ![j] = 0] /\ UNCHANGED <<O, R, D, W, S, P, N>>
FClear(k) == F' = [F EXCEPT ![k] = 0] /\ UNCHANGED <<O, R, D, W, S, P, N>>
\* switches: state 0 holds nothing, states 1 and 2 one object; copies share it
SNew(k, t) == /\ IF t = 0 THEN S' = [S EXCEPT ![k] = <<0, 0>>] /\ UNCHANGED N
                 ELSE S' = [S EXCEPT ![k] = <<t, Fresh>>] /\ N' = Append(N, 0)
              /\ UNCHANGED <<O, R, D, W, F, P>>
SCopy(k, j) == S' = [S EXCEPT ![k] = S[j]] /\ UNCHANGED <<O, R, D, W, F, P, N>>
SMove(k, j) == /\ k # j /\ S' = [S EXCEPT ![k] = S[j], ![j] = <<S[j][1], 0>>] /\ UNCHANGED <<O, R, D, W, F, P, N>>
\* optional owners
POwn(k) == P' = [P EXCEPT ![k] = <<Fresh, TRUE>>] /\ N' = Append(N, 0) /\ UNCHANGED <<O, R, D, W, F, S>>
\* the borrower must not outlive: borrow from O[j] and let go before anything happens to it
PMove(k, j) == k # j /\ P' = [P EXCEPT ![k] = P[j], ![j] = NoP] /\ UNCHANGED <<O, R, D, W, F, S, N>>
PTake(k, j) == O[j] # 0 /\ P' = [P EXCEPT ![k] = <<O[j], TRUE>>] /\ O' = [O EXCEPT ![j] = 0] /\ UNCHANGED <<R, D, W, F, S, N>>
PClear(k) == P' = [P EXCEPT ![k] = NoP] /\ UNCHANGED <<O, R, D, W, F, S, N>>
=============================================================================

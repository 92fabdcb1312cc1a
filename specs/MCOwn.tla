------------------------------- MODULE MCOwn --------------------------------
(* Counted references as the code keeps them: a count in every object,      *)
(* updated slot by slot, an object destroyed when its count reaches zero,   *)
(* which in turn drops the reference it holds. Refines OwnSpec: an object   *)
(* is alive exactly as long as somebody refers to it, and nothing that was  *)
(* destroyed is ever read. ORDER chooses the order of the steps of a move   *)
(* assignment: "take" moves the new value out before the old one is let go. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS MaxObj, ORDER
VARIABLES R, N, C, dead, bad          \* slots, links, counts, destroyed objects, a read of a dead object
K == 0..2
Z == [k \in K |-> 0]
Abs == INSTANCE OwnSpec WITH O <- Z, D <- Z, W <- Z, F <- Z, S <- [k \in K |-> <<0, 0>>], P <- [k \in K |-> <<0, FALSE>>], L <- {}
Init == R = Z /\ N = <<>> /\ C = <<>> /\ dead = {} /\ bad = FALSE
\* dropping one reference to x: <<counts, dead, bad>>
RECURSIVE Drop(_, _, _)
Drop(x, n, st) == IF x = 0 THEN st
                  ELSE IF x \in st[2] THEN <<st[1], st[2], TRUE>>
                  ELSE IF st[1][x] > 1 THEN <<[st[1] EXCEPT ![x] = @ - 1], st[2], st[3]>>
                  ELSE Drop(n[x], n, <<[st[1] EXCEPT ![x] = 0], st[2] \cup {x}, st[3]>>)
Inc(c, x) == IF x = 0 THEN c ELSE [c EXCEPT ![x] = @ + 1]
Put(st) == C' = st[1] /\ dead' = st[2] /\ bad' = st[3]
New(k) == /\ Len(N) < MaxObj /\ N' = Append(N, 0) /\ R' = [R EXCEPT ![k] = Len(N) + 1]
          /\ Put(Drop(R[k], N, <<Append(C, 1), dead, bad>>))
Copy(k, j) == R' = [R EXCEPT ![k] = R[j]] /\ UNCHANGED N /\ Put(Drop(R[k], N, <<Inc(C, R[j]), dead, bad>>))
Move(k, j) == k # j /\ R' = [R EXCEPT ![k] = R[j], ![j] = 0] /\ UNCHANGED N /\ Put(Drop(R[k], N, <<C, dead, bad>>))
Link(k, j) == /\ R[k] # 0 /\ (R[j] # 0 => ~Abs!Reaches(R[j], R[k]))
              /\ N' = [N EXCEPT ![R[k]] = R[j]] /\ UNCHANGED R
              /\ Put(Drop(N[R[k]], N, <<Inc(C, R[j]), dead, bad>>))
PopCopy(k) == R[k] # 0 /\ R' = [R EXCEPT ![k] = N[R[k]]] /\ UNCHANGED N
              /\ Put(Drop(R[k], N, <<Inc(C, N[R[k]]), dead, bad>>))
PopMove(k) == /\ R[k] # 0
              /\ IF ORDER = "take"
                 THEN /\ N' = [N EXCEPT ![R[k]] = 0] /\ R' = [R EXCEPT ![k] = N[R[k]]]
                      /\ Put(Drop(R[k], [N EXCEPT ![R[k]] = 0], <<C, dead, bad>>))
                 ELSE LET st == Drop(R[k], N, <<C, dead, bad>>)  \* let go first, then read the link
                      IN /\ R' = [R EXCEPT ![k] = N[R[k]]] /\ N' = [N EXCEPT ![R[k]] = 0]
                         /\ Put(<<st[1], st[2], st[3] \/ R[k] \in st[2]>>)
Next == \E k, j \in K : New(k) \/ Copy(k, j) \/ Move(k, j) \/ Link(k, j) \/ PopCopy(k) \/ PopMove(k)
Spec == Init /\ [][Next]_<<R, N, C, dead, bad>>
NothingDeadIsRead == ~bad
DestroyedExactly == \A x \in 1..Len(N) : x \in dead <=> x \notin Abs!Strong
CountsExact == \A x \in 1..Len(N) : x \notin dead => C[x] = Abs!RCount(x)
Refines == [][\E k, j \in K : Abs!RNew(k) \/ Abs!RCopy(k, j) \/ Abs!RMove(k, j) \/ Abs!RLink(k, j)
                \/ Abs!RPopCopy(k) \/ Abs!RPopMove(k)]_<<R, N>>
=============================================================================

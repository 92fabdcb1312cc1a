----------------------------- MODULE LabelSpec ------------------------------
(* Interned strings: equal strings get the same label, different ones        *)
(* different labels; a label's string never changes nor moves; looking up a  *)
(* string that was not inserted gives the invalid label and changes nothing. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES L, A      \* inserted string -> label; label -> address of its bytes
LInit == L = << >> /\ A = << >>
Known(s) == s \in DOMAIN L
Labels == {L[s] : s \in DOMAIN L}
Insert(s, x) == /\ x # 0
                /\ IF Known(s) THEN x = L[s] /\ UNCHANGED L
                   ELSE x \notin Labels /\ L' = [t \in DOMAIN L \cup {s} |-> IF t = s THEN x ELSE L[t]]
                /\ UNCHANGED A
Find(s, x) == x = (IF Known(s) THEN L[s] ELSE 0) /\ UNCHANGED <<L, A>>
View(x, s, a) == /\ IF x = 0 THEN s = <<0, 0>> ELSE \E t \in DOMAIN L : L[t] = x /\ t = s
                 /\ IF x \in DOMAIN A THEN a = A[x] /\ UNCHANGED A
                    ELSE A' = [y \in DOMAIN A \cup {x} |-> IF y = x THEN a ELSE A[y]]
                 /\ UNCHANGED L
=============================================================================

------------------------------ MODULE CookSpec ------------------------------
(* Incremental cooking. A job has a result once it was cooked; a result      *)
(* knows what it was made from and which other jobs it refers to. A session  *)
(* checks jobs: one whose result is still what cooking it now would give is  *)
(* left alone, another is cooked, at most once. What is referred to is       *)
(* checked, too, when the deferred jobs are cooked. A job goes away when     *)
(* nothing refers to it any more.                                            *)
(*                                                                           *)
(* What a job does is the content of its own file, a sequence of <<op, n>>:  *)
(*   v n: its output is n more          d n: data file n is read             *)
(*   s n: data file n is looked at, but never read to the end                *)
(*   r n: refers to job n               c n: cooks job n                     *)
(*   o n: cooks job n, uses its output  a 0: uses the argument               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* W: the files there are: <<kind, n>> -> [m |-> time, c |-> content]
\* st: J the jobs; slots, roots, keep: who holds which jobs; chk: checked in this session (prog: being cooked now);
\*     def: deferred; cooks, unlinks: how often, by job
NoJob == [res |-> FALSE, out |-> 0, err |-> 0, refs |-> <<>>, deps |-> <<>>, old |-> <<>>]
Rng(s) == { s[i] : i \in 1..Len(s) }
Fresh(ids) == [J |-> << >>, slots |-> [k \in 1..3 |-> 0], roots |-> <<>>, keep |-> {}, on |-> FALSE, chk |-> {}, prog |-> {},
               def |-> {}, cooks |-> [i \in ids |-> 0], unlinks |-> [i \in ids |-> 0]]
Time(W, f) == IF f \in DOMAIN W THEN W[f].m ELSE 0

Held(st) == (Rng(st.slots) \cup Rng(st.roots) \cup st.keep \cup st.chk \cup st.prog \cup st.def
             \cup UNION { Rng(st.J[j].refs) \cup Rng(st.J[j].old) : j \in DOMAIN st.J }) \ {0}
RECURSIVE GC(_)
GC(st) == LET dead == DOMAIN st.J \ Held(st) IN
          IF dead = {} THEN st
          ELSE GC([st EXCEPT !.J = [j \in DOMAIN st.J \ dead |-> st.J[j]],
                             !.unlinks = [i \in DOMAIN @ |-> IF i \in dead /\ st.J[i].res THEN @[i] + 1 ELSE @[i]]])
Create(st, j) == IF j \in DOMAIN st.J THEN st
                 ELSE [st EXCEPT !.J = [i \in DOMAIN st.J \cup {j} |-> IF i = j THEN NoJob ELSE st.J[i]]]

RECURSIVE Ensure(_, _, _, _), Check(_, _, _, _), Perform(_, _, _, _, _)
\* <<has something changed, state after finding out>>
Check(st, W, deps, arg) ==
    IF deps = <<>> THEN <<FALSE, st>>
    ELSE LET d == deps[1] IN
         IF d[1] = "o"
         THEN LET s2 == Ensure(Create(st, d[2]), W, d[2], 0) IN
              IF s2.J[d[2]].out # d[3] THEN <<TRUE, s2>> ELSE Check(s2, W, Tail(deps), arg)
         ELSE IF (IF d[1] = "a" THEN arg ELSE Time(W, <<d[1], d[2]>>)) # d[3] THEN <<TRUE, st>>
         ELSE Check(st, W, Tail(deps), arg)
\* j does what remains of its recipe
Perform(st, W, j, ops, arg) ==
    IF ops = <<>> THEN st
    ELSE LET o == ops[1]
             n == o[2]
             Dep(s, d) == [s EXCEPT !.J[j].deps = Append(@, d)]
             Out(s, k) == [s EXCEPT !.J[j].out = (@ + k) % 1000]
             s1 == CASE o[1] = "v" -> Out(st, n)
                     [] o[1] = "a" -> Out(Dep(st, <<"a", 0, arg>>), arg)
                     [] o[1] = "d" -> LET f == <<"d", n>> IN
                           IF f \in DOMAIN W THEN Out(Dep(st, <<"d", n, W[f].m>>), 3 * W[f].c[1][2])
                           ELSE [Dep(st, <<"d", n, 0>>) EXCEPT !.J[j].err = @ + 1]
                     [] o[1] = "s" -> LET f == <<"d", n>> s2 == Dep(st, <<"d", n, 0>>) IN
                           IF f \in DOMAIN W THEN s2 ELSE [s2 EXCEPT !.J[j].err = @ + 1]
                     [] o[1] = "r" -> LET s2 == Create(st, n) IN
                           [s2 EXCEPT !.J[j].refs = Append(@, n),
                                      !.def = IF n \in st.chk \cup st.prog THEN @ ELSE @ \cup {n}]
                     [] o[1] = "c" -> Ensure(Create(st, n), W, n, 0)
                     [] o[1] = "o" -> LET s2 == Ensure(Create(st, n), W, n, 0) IN
                           Out(Dep(s2, <<"o", n, s2.J[n].out>>), 7 * s2.J[n].out)
         IN Perform(s1, W, j, Tail(ops), arg)
Ensure(st, W, j, arg) ==
    IF j \in st.chk THEN st
    ELSE LET s0 == [st EXCEPT !.prog = @ \cup {j}]
             c == IF s0.J[j].res THEN Check(s0, W, s0.J[j].deps, arg) ELSE <<TRUE, s0>>
             s1 == c[2]
             own == <<"j", j>>
             begun == [s1 EXCEPT !.J[j] = [NoJob EXCEPT !.res = TRUE, !.old = s1.J[j].refs, !.deps = << <<"j", j, Time(W, own)>> >>],
                                 !.unlinks[j] = IF s1.J[j].res THEN @ + 1 ELSE @, !.cooks[j] = @ + 1]
             done == IF own \in DOMAIN W THEN Perform(begun, W, j, W[own].c, arg)
                     ELSE [begun EXCEPT !.J[j].err = 1, !.J[j].out = 999]
             s2 == IF c[1] THEN GC([done EXCEPT !.J[j].old = <<>>])
                   ELSE [s1 EXCEPT !.def = @ \cup Rng(s1.J[j].refs)]
         IN [s2 EXCEPT !.prog = @ \ {j}, !.chk = @ \cup {j}]

\* the deferred jobs are cooked batch by batch, each in any order
RECURSIVE InAnyOrder(_, _), Defer(_, _)
InAnyOrder(S, W) ==      \* S: a set of <<state, jobs of the batch still to do>>
    LET over == { p \in S : p[2] = {} }
        next == UNION { { <<Ensure(p[1], W, j, 0), p[2] \ {j}>> : j \in p[2] } : p \in S \ over } IN
    { p[1] : p \in over } \cup (IF next = {} THEN {} ELSE InAnyOrder(next, W))
Defer(S, W) ==
    LET over == { st \in S : st.def = {} }
        next == UNION { { GC([s EXCEPT !.keep = {}]) : s \in InAnyOrder({ <<[st EXCEPT !.def = {}, !.keep = st.def], st.def>> }, W) }
                        : st \in S \ over } IN
    over \cup (IF next = {} THEN {} ELSE Defer(next, W))

(* -- operations --------------------------------------------------------- *)
Begin(st) == [st EXCEPT !.on = TRUE]
End(st) == [GC([st EXCEPT !.chk = {}, !.prog = {}]) EXCEPT !.on = FALSE]
Hold(st, k, j) == LET s == Create(st, j) IN GC([s EXCEPT !.slots[k] = j])
Release(st, k) == GC([st EXCEPT !.slots[k] = 0])
CookJob(st, W, k, j, arg) ==     \* k: the slot for the job, or 0
    LET s == Ensure(Create(st, j), W, j, arg) IN IF k = 0 THEN s ELSE GC([s EXCEPT !.slots[k] = j])
RECURSIVE CreateAll(_, _)
CreateAll(st, q) == IF q = <<>> THEN st ELSE CreateAll(Create(st, q[1]), Tail(q))
SetRoots(st, q) == GC([CreateAll(st, q) EXCEPT !.roots = q])

(* -- what must be true --------------------------------------------------- *)
\* the output of a job cooked from nothing
RECURSIVE Value(_, _), Sum(_, _)
Sum(W, ops) == IF ops = <<>> THEN 0
    ELSE LET o == ops[1] IN
         ((CASE o[1] = "v" -> o[2]
             [] o[1] = "d" -> IF <<"d", o[2]>> \in DOMAIN W THEN 3 * W[<<"d", o[2]>>].c[1][2] ELSE 0
             [] o[1] = "o" -> 7 * Value(W, o[2])
             [] OTHER -> 0) + Sum(W, Tail(ops))) % 1000
Value(W, j) == IF <<"j", j>> \in DOMAIN W THEN Sum(W, W[<<"j", j>>].c) ELSE 999
RefsIn(W, j) == IF <<"j", j>> \in DOMAIN W THEN { o[2] : o \in { x \in Rng(W[<<"j", j>>].c) : x[1] = "r" } } ELSE {}

\* whatever was checked is as if cooked from nothing
UpToDate(st, W) == \A j \in st.chk : /\ st.J[j].res
                                     /\ st.J[j].out = Value(W, j)
                                     /\ Rng(st.J[j].refs) = RefsIn(W, j)
\* with nothing deferred, all that is referred to by what was checked is, too
Complete(st) == st.def = {} => \A j \in st.chk : Rng(st.J[j].refs) \subseteq st.chk
Balanced(st) == \A i \in DOMAIN st.cooks :
    st.cooks[i] = st.unlinks[i] + (IF i \in DOMAIN st.J /\ st.J[i].res THEN 1 ELSE 0)
Closed(st) == \A j \in DOMAIN st.J : Rng(st.J[j].refs) \subseteq DOMAIN st.J
=============================================================================

----------------------------- MODULE MCFileTree -----------------------------
(* All trees that short histories of operations can build over a few names,*)
(* and on each of them the algorithms the code uses against what FileTree   *)
(* demands: makeDirs recurses over the path from its end, removeDirTree     *)
(* over the entries of each directory, and a save goes through a temporary  *)
(* file and may crash between any two system calls, or, with MODE           *)
(* "inplace", doesn't, which breaks the property.                           *)
EXTENDS FileTree, TLC
CONSTANTS Depth, MODE
VARIABLES T, n, pc, job, old
Names == {"a", "b"}
Paths == {<<>>} \cup {<<x>> : x \in Names} \cup {<<x, y>> : x, y \in Names}
Args == (Paths \ {<<>>}) \cup {<<x, "">> : x \in Names} \cup {<<x, "..", "b">> : x \in Names} \cup {<<"a", "b", "a">>, <<"..", "a">>}
vars == <<T, n, pc, job, old>>
None == [q |-> <<>>, c |-> ""]
Init == T = (<<>> :> Dir(TRUE, TRUE)) /\ n = 0 /\ pc = "idle" /\ job = None /\ old = T
Small(t) == \A p \in DOMAIN t : Len(p) <= 3
Do(outs) == \E o \in outs : Small(o.t) /\ T' = o.t /\ n' = n + 1 /\ UNCHANGED <<pc, job, old>>
Ops == \/ \E q \in Args : Do(MakeDir(T, <<>>, q)) \/ Do(MakeDirs(T, <<>>, q)) \/ Do(Delete(T, <<>>, q)) \/ Do(RmTreeOk(T, <<>>, q))
       \/ \E q \in Args, c \in {"x", "y"} : Do(Write(T, <<>>, q, c, 1))
       \/ \E q1, q2 \in Paths \ {<<>>} : Do(Move(T, <<>>, q1, q2))
       \/ \E p \in Paths \ {<<>>}, t \in {<<"a">>, <<"b", "a">>} : At0(T, <<>>, p).s = "miss" /\ Do({Out("OK", Put(T, At0(T, <<>>, p).p, Link(t)))})
       \/ \E p \in DOMAIN T : T[p].k = "d" /\ Do({Out("OK", [T EXCEPT ![p].w = ~@])})
\* saving, one system call after the other
Begin == \E q \in Paths \ {<<>>} : \E c \in {"x", "z"} :
    /\ \E o \in Save(T, <<>>, q, c, 2) : o.r = "OK" /\ CanWrite(o.t, At0(o.t, <<>>, q).p)
    /\ pc' = "dirs" /\ job' = [q |-> q, c |-> c] /\ old' = T /\ UNCHANGED <<T, n>>
Target == At0(T, <<>>, job.q).p
Tmp == Append(Parent(Target), "tmp")
Into == IF MODE = "inplace" THEN Target ELSE Tmp
SaveStep ==
    /\ UNCHANGED <<n, job, old>>
    /\ \/ /\ pc = "dirs" /\ T' = MkAll(T, <<>>, Parent(job.q)).t /\ pc' = "open"
       \/ /\ pc = "open" /\ pc' = "write" /\ T' = Put(T, Into, File("", 0, TRUE, TRUE))
       \/ /\ pc = "write" /\ pc' = "more" /\ T' = Put(T, Into, File("part", 1, TRUE, TRUE))
       \/ /\ pc = "more" /\ pc' = "rename" /\ T' = Put(T, Into, File(job.c, 2, TRUE, TRUE))
       \/ /\ pc = "rename" /\ pc' = "done" /\ T' = IF MODE = "inplace" THEN T ELSE Put(Drop(T, {Tmp}), Target, T[Tmp])
Next == \/ pc = "idle" /\ n < Depth /\ Ops
        \/ pc = "idle" /\ Begin
        \/ SaveStep
        \/ pc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Saving == pc \in {"open", "write", "more", "rename", "done"}
TreeStaysTree == WellFormed(T)
CrashKeepsOldOrNew == Saving => SaveTorn(old, <<>>, job.q, job.c, 2, T)
SavedInTheEnd == pc = "done" => Out("OK", T) \in Save(old, <<>>, job.q, job.c, 2)
\* makeDirs as the code does it
RECURSIVE Rec(_, _)
Rec(t, q) ==
    IF Exists(t, <<>>, q) = "Directory" THEN Out("AlreadyExists", t)
    ELSE IF Exists(t, <<>>, q) = "File" THEN Out("AccessDenied", t)
    ELSE IF q[Len(q)] = "" THEN Rec(t, Parent(q))
    ELSE LET up == IF Len(q) > 1 THEN Rec(t, Parent(q)) ELSE Out("OK", t) IN
         IF up.r \notin {"OK", "AlreadyExists"} THEN up
         ELSE LET os == MakeDir(up.t, <<>>, q) IN IF os = {} THEN Out("assert", up.t) ELSE CHOOSE o \in os : TRUE
Plain(q) == \A i \in DOMAIN q : q[i] # ".."
NoLinks == \A p \in DOMAIN T : T[p].k # "l"
MakeDirsAgrees == pc = "idle" /\ NoLinks => \A q \in Args : Plain(q) => Rec(T, q) \in MakeDirs(T, <<>>, q)
\* removeDirTree as the code does it
RECURSIVE Rm(_, _), RmAll(_, _)
Rm(t, p) == LET s == RmAll(t, Entries(t, p)) IN
            IF s.r # "OK" THEN s ELSE IF ~CanWrite(t, p) THEN Out("AccessDenied", s.t) ELSE Out("OK", Drop(s.t, {p}))
RmAll(t, es) == IF es = {} THEN Out("OK", t)
                ELSE LET e == CHOOSE e \in es : TRUE IN
                     LET s == IF t[e].k = "d" THEN Rm(t, e) ELSE IF CanWrite(t, e) THEN Out("OK", Drop(t, {e})) ELSE Out("AccessDenied", t) IN
                     IF s.r # "OK" THEN s ELSE RmAll(s.t, es \ {e})
RemoveAgrees == pc = "idle" => \A p \in DOMAIN T : p # <<>> /\ T[p].k = "d" =>
    LET o == Rm(T, p) IN o \in RmTreeOk(T, <<>>, p) \/ RmTreeDenied(T, <<>>, p, o.r, o.t)
=============================================================================

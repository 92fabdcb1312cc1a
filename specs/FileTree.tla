------------------------------ MODULE FileTree ------------------------------
(* A tree of directories, files and symbolic links, and what each operation *)
(* of a file system does to it. T maps the path of every entry (a sequence  *)
(* of names; <<>> is the root) to its node. Operations take the path as the *)
(* caller wrote it: its components, "" for a separator at the end.          *)
EXTENDS Naturals, Sequences, FiniteSets
\* k: "d" directory, "f" file, "l" link; c, n: content and size; r, w: may be read, written; t: where a link leads
Dir(r, w) == [k |-> "d", c |-> "", n |-> 0, r |-> r, w |-> w, t |-> <<>>]
File(c, n, r, w) == [k |-> "f", c |-> c, n |-> n, r |-> r, w |-> w, t |-> <<>>]
Link(t) == [k |-> "l", c |-> "", n |-> 0, r |-> TRUE, w |-> TRUE, t |-> t]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(T, p) == {q \in DOMAIN T : IsPrefix(p, q)}
WellFormed(T) == /\ <<>> \in DOMAIN T
                 /\ \A p \in DOMAIN T : p # <<>> => Parent(p) \in DOMAIN T /\ T[Parent(p)].k = "d"
Put(T, p, n) == [q \in DOMAIN T \cup {p} |-> IF q = p THEN n ELSE T[q]]
Drop(T, ps) == [q \in DOMAIN T \ ps |-> T[q]]
\* Following a path: "ok" an entry at p, "miss" only the last step p is missing,
\* "nf" something before it is missing, "nd" something before it is no directory.
Blank(q) == q = <<>> \/ q = <<"">>
RECURSIVE Walk(_, _, _, _, _)
Walk(T, cur, q, follow, fuel) ==
    IF q = <<>> THEN [s |-> "ok", p |-> cur]
    ELSE IF T[cur].k # "d" \/ fuel = 0 THEN [s |-> "nd", p |-> cur]
    ELSE LET name == Head(q) rest == Tail(q) IN
        IF name = "." \/ name = "" THEN Walk(T, cur, rest, follow, fuel)
        ELSE IF name = ".." THEN Walk(T, IF cur = <<>> THEN cur ELSE Parent(cur), rest, follow, fuel)
        ELSE LET child == Append(cur, name) IN
            IF child \notin DOMAIN T THEN [s |-> IF Blank(rest) THEN "miss" ELSE "nf", p |-> child]
            ELSE IF T[child].k = "l" /\ (follow \/ rest # <<>>) THEN Walk(T, <<>>, T[child].t \o rest, follow, fuel - 1)
            ELSE Walk(T, child, rest, follow, fuel)
At(T, w, q) == Walk(T, w, q, TRUE, 4)          \* of a working directory and a path
At0(T, w, q) == Walk(T, w, q, FALSE, 4)        \* not following a link at the end
CanWrite(T, p) == T[Parent(p)].w               \* may entries appear, vanish or change names there

Exists(T, w, q) == LET a == At(T, w, q) IN
    IF a.s # "ok" THEN "NotFound" ELSE IF T[a.p].k = "d" THEN "Directory" ELSE "File"
\* Every operation: the set of allowed outcomes [r |-> result, t |-> tree afterwards]
Out(r, T) == [r |-> r, t |-> T]
RECURSIVE NoSep(_)
NoSep(q) == IF q # <<>> /\ q[Len(q)] = "" THEN NoSep(Parent(q)) ELSE q
MakeDir(T, w, q) == LET a == At0(T, w, NoSep(q)) IN
    IF a.s = "ok" THEN {Out("AlreadyExists", T)}
    ELSE IF a.s = "miss" THEN {IF CanWrite(T, a.p) THEN Out("OK", Put(T, a.p, Dir(TRUE, TRUE))) ELSE Out("AccessDenied", T)}
    ELSE {}
\* create whatever is missing on the way
RECURSIVE MkAll(_, _, _)
MkAll(T, cur, q) ==
    IF T[cur].k # "d" THEN Out("AccessDenied", T)
    ELSE IF q = <<>> THEN Out("OK", T)
    ELSE LET name == Head(q) IN
        IF name = "." \/ name = "" THEN MkAll(T, cur, Tail(q))
        ELSE IF name = ".." THEN MkAll(T, IF cur = <<>> THEN cur ELSE Parent(cur), Tail(q))
        ELSE LET a == At(T, cur, <<name>>) IN
            IF a.s = "ok" THEN MkAll(T, a.p, Tail(q))
            ELSE IF Append(cur, name) \in DOMAIN T THEN Out("AccessDenied", T)    \* a link that leads nowhere
            ELSE IF ~T[cur].w THEN Out("AccessDenied", T)
            ELSE MkAll(Put(T, Append(cur, name), Dir(TRUE, TRUE)), Append(cur, name), Tail(q))
MakeDirs(T, w, q) ==
    IF Exists(T, w, q) = "File" THEN {Out("AccessDenied", T)}
    ELSE LET o == MkAll(T, w, q) IN
         IF o.r = "OK" /\ o.t = T THEN {Out("OK", T), Out("AlreadyExists", T)} ELSE {o}
Write(T, w, q, c, n) == LET a == At(T, w, q) IN
    IF a.s = "ok" THEN IF T[a.p].k # "f" THEN {}
                       ELSE IF T[a.p].w THEN {Out("OK", Put(T, a.p, [T[a.p] EXCEPT !.c = c, !.n = n]))}
                       ELSE {Out("AccessDenied", T)}
    ELSE IF a.s = "miss" THEN {IF CanWrite(T, a.p) THEN Out("OK", Put(T, a.p, File(c, n, TRUE, TRUE))) ELSE Out("AccessDenied", T)}
    ELSE IF a.s = "nf" THEN {Out("NotFound", T)}
    ELSE {}
\* results of reading: [r, c, n]
Got(r, c, n) == [r |-> r, c |-> c, n |-> n]
Read(T, w, q) == LET a == At(T, w, q) IN
    IF a.s = "ok" THEN IF T[a.p].k # "f" THEN {}
                       ELSE IF T[a.p].r THEN {Got("OK", T[a.p].c, T[a.p].n)} ELSE {Got("AccessDenied", "0:0", 0)}
    ELSE {Got("NotFound", "0:0", 0)}
Stat(T, w, q) == LET a == At(T, w, q) IN
    IF a.s = "ok" THEN {Got("OK", "", IF T[a.p].k = "f" THEN T[a.p].n ELSE 0)}
    ELSE {Got("NotFound", "", 0)}
\* renaming a file or a link; what was there before under the new name is gone
Move(T, w, q1, q2) == LET a == At0(T, w, q1) b == At0(T, w, q2) IN
    IF a.s # "ok" \/ T[a.p].k = "d" \/ b.s \notin {"ok", "miss"} THEN {}
    ELSE IF b.s = "ok" /\ T[b.p].k = "d" THEN {}
    ELSE IF ~CanWrite(T, a.p) \/ ~CanWrite(T, b.p) THEN {}
    ELSE IF a.p = b.p THEN {Out("OK", T)}
    ELSE {Out("OK", Put(Drop(T, {a.p}), b.p, T[a.p]))}
Delete(T, w, q) == LET a == At0(T, w, q) IN
    IF a.s # "ok" \/ T[a.p].k = "d" \/ ~CanWrite(T, a.p) THEN {} ELSE {Out("OK", Drop(T, {a.p}))}
\* Removing a tree never follows links. What denies access may leave any part of it behind.
Blocked(T, p) == \E q \in Under(T, p) : T[q].k = "d" /\ ((~T[q].w /\ Under(T, q) # {q}) \/ ~T[q].r)
RmTreeOk(T, w, q) == LET a == At0(T, w, q) IN
    IF a.s # "ok" \/ a.p = <<>> THEN {}
    ELSE IF T[a.p].k # "d" \/ Blocked(T, a.p) \/ ~CanWrite(T, a.p) THEN {}
    ELSE {Out("OK", Drop(T, Under(T, a.p)))}
RmTreeDenied(T, w, q, r, T2) == LET a == At0(T, w, q) IN
    /\ a.s = "ok" /\ a.p # <<>> /\ T[a.p].k = "d" /\ (Blocked(T, a.p) \/ ~CanWrite(T, a.p))
    /\ r = "AccessDenied" /\ WellFormed(T2) /\ DOMAIN T2 \subseteq DOMAIN T
    /\ \A p \in DOMAIN T : (p \in DOMAIN T2 => T2[p] = T[p]) /\ (~IsPrefix(a.p, p) => p \in DOMAIN T2)
    /\ a.p \in DOMAIN T2
\* the entries of a directory
Entries(T, p) == {q \in DOMAIN T : q # <<>> /\ Parent(q) = p}
Leaf(p) == p[Len(p)]
Dangling(T, p) == T[p].k = "l" /\ At(T, <<>>, p).s # "ok"
\* Saving: nothing to do if the file has that content; else whatever is missing is created
\* and the file has the new content. A file that can't be written may be replaced or not.
Save(T, w, q, c, n) == LET a == At(T, w, q) IN
    IF a.s = "nd" THEN {}
    ELSE IF a.s = "ok" /\ T[a.p].k # "f" THEN {}
    ELSE IF a.s = "ok" /\ ~T[a.p].r THEN {Out("AccessDenied", T)}
    ELSE IF a.s = "ok" /\ T[a.p].c = c THEN {Out("Unchanged", T)}
    ELSE LET m == MkAll(T, w, SubSeq(q, 1, Len(q) - 1)) IN
         IF m.r # "OK" THEN {m}
         ELSE LET b == At0(m.t, w, q) IN       \* the file itself, or a link to be replaced
              LET d == At(m.t, w, q) IN
              IF b.s = "miss" THEN {IF CanWrite(m.t, b.p) THEN Out("OK", Put(m.t, b.p, File(c, n, TRUE, TRUE))) ELSE Out("AccessDenied", m.t)}
              ELSE (IF CanWrite(m.t, b.p) THEN {Out("OK", Put(m.t, b.p, File(c, n, TRUE, TRUE)))} ELSE {Out("AccessDenied", m.t)})
                   \cup (IF d.s = "ok" /\ m.t[d.p].w THEN {Out("OK", Put(m.t, d.p, [m.t[d.p] EXCEPT !.c = c, !.n = n]))} ELSE {})
\* A save that was cut short, by a crash or a full disk: every file has its old content or, the
\* saved one, the new content. Temporary files may be left in its folder.
SaveTorn(T, w, q, c, n, T2) == LET m == MkAll(T, w, SubSeq(q, 1, Len(q) - 1)) IN
    /\ m.r = "OK" /\ WellFormed(T2)
    /\ LET b == At0(m.t, w, q) IN
       LET odd == {p \in DOMAIN T2 : p \notin DOMAIN m.t /\ p # b.p} IN
       /\ \A p \in odd : Parent(p) = Parent(b.p) /\ T2[p].k = "f"
       /\ \A p \in DOMAIN T : p # b.p => p \in DOMAIN T2 /\ T2[p] = T[p]
       /\ IF b.p \in DOMAIN T2 THEN T2[b.p] \in ({File(c, n, TRUE, TRUE)} \cup (IF b.p \in DOMAIN T THEN {T[b.p]} ELSE {}))
          ELSE b.p \notin DOMAIN T
=============================================================================

--------------------------- MODULE TraceFileTree ----------------------------
EXTENDS FileTree, TraceBase
VARIABLES T, W, M        \* tree, working directory, mode (2: a virtual file system, whose paths are normalized first)
vars == <<T, W, M, l>>
\* a virtual file system drops "x/.." before looking at the entries
RECURSIVE Lex(_, _)
Lex(q, acc) == IF q = <<>> THEN acc
               ELSE IF Head(q) = ".." THEN Lex(Tail(q), IF acc = <<>> THEN acc ELSE Parent(acc))
               ELSE IF Head(q) = "." THEN Lex(Tail(q), acc)
               ELSE Lex(Tail(q), Append(acc, Head(q)))
Form(q) == IF M = 2 THEN Lex(q, <<>>) ELSE q
Q == Form(Ev.q)
Snap == LET s == Ev.tree IN
        [p \in {s[i].p : i \in DOMAIN s} |-> LET x == s[CHOOSE i \in DOMAIN s : s[i].p = p] IN
            [k |-> x.k, c |-> x.c, n |-> x.n, r |-> x.r, w |-> x.w, t |-> x.t]]
Fresh == <<>> :> Dir(TRUE, TRUE)
TInit == TraceStart /\ T = Fresh /\ W = <<>> /\ M = 0
Stay == UNCHANGED <<T, W, M>>
Become(outs) == /\ UNCHANGED <<W, M>> /\ T' = Snap /\ Ev.out = 0 /\ Ev.last
                /\ \E o \in outs : o.r = Ev.r /\ o.t = T'
Tells(gots) == Stay /\ Ev.last /\ \E g \in gots : g.r = Ev.r /\ g.c = Ev.c /\ g.n = Ev.n
\* the entries of a directory as listed: each once; a link that leads nowhere may be left out
\* when sizes or times were asked for; times of the files are compared by the harness
ListedOk(p, es, sizes, flagged) ==
    LET names == {es[i].x : i \in DOMAIN es} IN
    /\ Cardinality(names) = Len(es)
    /\ \A i \in DOMAIN es : /\ Append(p, es[i].x) \in DOMAIN T
                            /\ es[i].d = (T[Append(p, es[i].x)].k = "d")
                            /\ (sizes /\ T[Append(p, es[i].x)].k = "f") => es[i].n = T[Append(p, es[i].x)].n
    /\ \A e \in Entries(T, p) : Leaf(e) \in names \/ Dangling(T, e)
ListDir == LET a == At(T, W, Q) IN
    /\ Stay /\ Ev.last
    /\ IF a.s = "ok" THEN /\ T[a.p].k = "d"
                          /\ IF T[a.p].r THEN Ev.r = "OK" /\ ListedOk(a.p, Ev.es, Ev.sizes, TRUE)
                             ELSE Ev.r = "AccessDenied" /\ Ev.es = <<>>
       ELSE Ev.r = "NotFound" /\ Ev.es = <<>>
\* a walk visits a directory before what is below it, in the order in which the caller left the names
Pruned == {Ev.pruned[i] : i \in DOMAIN Ev.pruned}
Dirs(p) == {Leaf(e) : e \in {d \in Entries(T, p) : T[d].k = "d"}}
Triple(p, x) == /\ x.p = p
                /\ IF T[p].r THEN /\ {x.ds[i] : i \in DOMAIN x.ds} = Dirs(p) /\ Len(x.ds) = Cardinality(Dirs(p))
                                  /\ LET fs == x.fs names == {fs[i].x : i \in DOMAIN fs} IN
                                     /\ Len(fs) = Cardinality(names)
                                     /\ \A i \in DOMAIN fs : /\ Append(p, fs[i].x) \in DOMAIN T /\ T[Append(p, fs[i].x)].k # "d"
                                                             /\ (Ev.sizes /\ T[Append(p, fs[i].x)].k = "f") => fs[i].n = T[Append(p, fs[i].x)].n
                                     /\ \A e \in Entries(T, p) : T[e].k = "d" \/ Leaf(e) \in names \/ Dangling(T, e)
                   ELSE x.ds = <<>> /\ x.fs = <<>>
RECURSIVE Visit(_, _, _), VisitAll(_, _, _, _)
\* where a walk from p leaves off when it starts at triple i; 0: it disagrees
Visit(ts, i, p) == IF i = 0 \/ i > Len(ts) THEN 0
                   ELSE IF ~Triple(p, ts[i]) THEN 0
                   ELSE VisitAll(ts, i + 1, p, SelectSeq(ts[i].ds, LAMBDA d : d \notin Pruned))
VisitAll(ts, i, p, ds) == IF ds = <<>> \/ i = 0 THEN i ELSE VisitAll(ts, Visit(ts, i, Append(p, Head(ds))), p, Tail(ds))
WalkDirs == LET a == At(T, W, Q) IN
    /\ Stay /\ Ev.last
    /\ IF a.s = "ok" /\ T[a.p].r THEN Ev.r = "OK" /\ T[a.p].k = "d" /\ Visit(Ev.ts, 1, a.p) = Len(Ev.ts) + 1
       ELSE /\ Ev.r = (IF a.s = "ok" THEN "AccessDenied" ELSE "NotFound")
            /\ Len(Ev.ts) <= 1 /\ \A i \in DOMAIN Ev.ts : Ev.ts[i].ds = <<>> /\ Ev.ts[i].fs = <<>>
Torn == /\ UNCHANGED <<W, M>> /\ T' = Snap /\ Ev.out = 0
        /\ \/ \E o \in Save(T, W, Q, Ev.c, Ev.n) : o.r = Ev.r /\ o.t = T'
           \/ /\ Ev.n > Ev.cut /\ Ev.r \in {"crash", "Unknown", "AccessDenied"} /\ SaveTorn(T, W, Q, Ev.c, Ev.n, T')
              /\ \E o \in Save(T, W, Q, Ev.c, Ev.n) : o.r = "OK"
TNext ==
    \/ IsEvent("reset") /\ T' = Snap /\ T' = Fresh /\ W' = <<>> /\ M' = Ev.mode /\ Ev.out = 0
    \/ IsEvent("set") /\ T' = Snap /\ UNCHANGED <<W, M>>
    \/ IsEvent("mkdir") /\ Become(MakeDir(T, W, Q))
    \/ IsEvent("mkdirs") /\ LET outs == MakeDirs(T, W, Q) \cup MakeDirs(T, W, Ev.q) IN Become(outs \cup
          (IF {".", ".."} \cap {Ev.q[i] : i \in DOMAIN Ev.q} = {} THEN {}   \* what such a step leads to is there before it is taken
           ELSE {Out("AlreadyExists", o.t) : o \in {x \in outs : x.r = "OK"}}))
    \/ IsEvent("exists") /\ Stay /\ Ev.last /\ Ev.r = Exists(T, W, Q)
    \/ IsEvent("write") /\ Become(Write(T, W, Q, Ev.c, Ev.n))
    \/ IsEvent("read") /\ Tells(Read(T, W, Q))
    \/ IsEvent("stat") /\ Tells(Stat(T, W, Q))
    \/ IsEvent("move") /\ Become(Move(T, W, Q, Form(Ev.q2)))
    \/ IsEvent("delete") /\ Become(Delete(T, W, Q))
    \/ IsEvent("rmtree") /\ \/ Become(RmTreeOk(T, W, Q))
                            \/ UNCHANGED <<W, M>> /\ T' = Snap /\ Ev.out = 0 /\ Ev.last /\ RmTreeDenied(T, W, Q, Ev.r, T')
    \/ IsEvent("list") /\ ListDir
    \/ IsEvent("walk") /\ WalkDirs
    \/ IsEvent("chdir") /\ LET a == At(T, W, Q) IN
          /\ UNCHANGED <<T, M>> /\ Ev.last /\ Ev.ok /\ W' = Ev.cwd
          /\ IF a.s = "ok" THEN T[a.p].k = "d" /\ Ev.r = "OK" /\ W' = a.p ELSE Ev.r = "NotFound" /\ W' = W
    \/ IsEvent("save") /\ Become(Save(T, W, Q, Ev.c, Ev.n)) /\ (Ev.r = "Unchanged" => Ev.same)
    \/ IsEvent("torn") /\ Torn
TSpec == TInit /\ [][TNext]_vars
=============================================================================

---------------------------- MODULE TraceCookSpec ----------------------------
(* What the real cooking engine did, against CookSpec *)
EXTENDS CookSpec, TraceBase
VARIABLES W, st
vars == <<W, st, l>>
Ids == 1..7
NoFiles == [f \in {} |-> 0]
TInit == TraceStart /\ W = NoFiles /\ st = Fresh(Ids)
\* the jobs there are, in order
Before(a, b) == a % 2 < b % 2 \/ (a % 2 = b % 2 /\ a < b)
Shown(s) == /\ {Ev.jobs[i][1] : i \in 1..Len(Ev.jobs)} = DOMAIN s.J
            /\ \A i \in 1..Len(Ev.jobs) - 1 : Before(Ev.jobs[i][1], Ev.jobs[i + 1][1])
            /\ \A i \in 1..Len(Ev.jobs) : LET e == Ev.jobs[i] j == s.J[e[1]] IN
                  /\ e[2] = (IF j.res THEN 1 ELSE 0) /\ e[3] = j.out /\ e[4] = j.err /\ e[5] = j.refs
                  /\ e[6] = Len(j.deps)
            /\ Ev.cooks = s.cooks /\ Ev.unlinks = s.unlinks
            /\ Ev.live = Cardinality({j \in DOMAIN s.J : s.J[j].res})
To(s) == st' = s /\ Shown(s) /\ UNCHANGED W
Gone == GC([st EXCEPT !.slots = [k \in 1..3 |-> 0], !.roots = <<>>])
TNext ==
    \/ IsEvent("reset") /\ W' = NoFiles /\ st' = Fresh(Ids)
    \/ IsEvent("put") /\ UNCHANGED st
       /\ W' = [f \in DOMAIN W \cup { <<Ev.k, Ev.n>> } |-> IF f = <<Ev.k, Ev.n>> THEN [m |-> Ev.m, c |-> Ev.c] ELSE W[f]]
    \/ IsEvent("gone") /\ W' = [f \in DOMAIN W \ { <<Ev.k, Ev.n>> } |-> W[f]] /\ UNCHANGED st
    \/ IsEvent("begin") /\ To(Begin(st))
    \/ IsEvent("cook") /\ To(CookJob(st, W, Ev.k, Ev.j, Ev.a))
    \/ IsEvent("hold") /\ To(Hold(st, Ev.k, Ev.j))
    \/ IsEvent("drop") /\ To(Release(st, Ev.k))
    \/ IsEvent("deferred") /\ \E s \in Defer({st}, W) : To(s)
    \/ IsEvent("roots") /\ To(SetRoots(st, Ev.q))
    \/ IsEvent("isdone") /\ Ev.r = (st.slots[Ev.k] \in st.chk) /\ To(st)
    \/ IsEvent("end") /\ st.def = {} /\ To(End(st))
    \/ /\ IsEvent("bye") /\ Ev.dbs = 0 /\ Ev.cooks = st.cooks /\ Ev.unlinks = Gone.unlinks
       /\ Ev.live = Cardinality({j \in DOMAIN Gone.J : Gone.J[j].res})
       /\ st' = [Fresh(Ids) EXCEPT !.cooks = st.cooks, !.unlinks = Gone.unlinks] /\ UNCHANGED W
TSpec == TInit /\ [][TNext]_vars
=============================================================================

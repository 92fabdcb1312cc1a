---------------------------- MODULE TraceMapSpec ----------------------------
EXTENDS MapSpec, TraceBase
vars == <<M, l>>
TInit == TraceStart /\ MapInit
Total == Size(1) + Size(2)
TNext ==
    \/ IsEvent("reset") /\ Ev.live = 0 /\ M' = [m \in Maps |-> Empty]
    \/ IsEvent("ins") /\ InsertOrFind(Ev.m, Ev.k, Ev.v, Ev.found, Ev.old)
    \/ IsEvent("find") /\ Find(Ev.m, Ev.k, Ev.found, Ev.v)
    \/ IsEvent("erase") /\ Erase(Ev.m, Ev.k, Ev.found)
    \/ IsEvent("renew") /\ Renew(Ev.m)
    \/ IsEvent("move") /\ MoveTo(Ev.d, Ev.a)
    \/ IsEvent("iter") /\ Iterate(Ev.m, Ev.k, Ev.v, Ev.n, Ev.empty) /\ Ev.live = Total
TSpec == TInit /\ [][TNext]_vars
=============================================================================

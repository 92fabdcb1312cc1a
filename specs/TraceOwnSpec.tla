---------------------------- MODULE TraceOwnSpec ----------------------------
EXTENDS OwnSpec, TraceBase
vars == <<O, R, D, W, F, S, P, N, L, l>>
TInit == TraceStart /\ OInit
Set(q) == {q[i] : i \in 1..Len(q)}
Look == /\ Set(Ev.alive) = Alive' /\ Len(Ev.alive) = Cardinality(Alive')
        /\ Set(Ev.strong) = Strong' /\ Ev.twice = 0
        /\ \A k \in K : /\ Ev.o[k + 1] = O'[k] /\ Ev.r[k + 1] = R'[k] /\ Ev.d[k + 1] = D'[k] /\ Ev.w[k + 1] = W'[k]
                        /\ Ev.f[k + 1] = F'[k] /\ Ev.st[k + 1] = S'[k][1] /\ Ev.s[k + 1] = S'[k][2]
                        /\ Ev.p[k + 1] = P'[k][1] /\ Ev.po[k + 1] = P'[k][2]
                        /\ Ev.rc[k + 1] = (IF R'[k] = 0 THEN 0 ELSE RefsTo(R', Strong', N', R'[k]))
                        /\ Ev.dc[k + 1] = (IF D'[k] = 0 THEN 0 ELSE Cardinality({j \in K : D'[j] = D'[k]}))
                        /\ Ev.wc[k + 1] = (IF D'[k] = 0 THEN 0 ELSE WCount(D'[k], W', L', Alive'))
TNext ==
    \/ IsEvent("reset") /\ Ev.live = 0 /\ O' = E /\ R' = E /\ D' = E /\ W' = E /\ F' = E
         /\ S' = [k \in K |-> <<0, 0>>] /\ P' = [k \in K |-> NoP] /\ N' = <<>> /\ L' = {}
    \/ IsEvent("onew") /\ ONew(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("omove") /\ OMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("opush") /\ OPush(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("opop") /\ OPop(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("oclear") /\ OClear(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("rnew") /\ RNew(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("rcopy") /\ RCopy(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("rmove") /\ RMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("rclear") /\ RClear(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("rlink") /\ RLink(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("rpopc") /\ RPopCopy(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("rpopm") /\ RPopMove(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("dnew") /\ DNew(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("dcopy") /\ DCopy(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("dmove") /\ DMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("wtake") /\ WTake(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("wcopy") /\ WCopy(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("wmove") /\ WMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("wclear") /\ WClear(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("fnew") /\ FNew(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("fmove") /\ FMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("fclear") /\ FClear(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("snew") /\ SNew(Ev.k, Ev.t) /\ UNCHANGED L /\ Look
    \/ IsEvent("scopy") /\ SCopy(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("smove") /\ SMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("pown") /\ POwn(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("pmove") /\ PMove(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("ptake") /\ PTake(Ev.k, Ev.j) /\ UNCHANGED L /\ Look
    \/ IsEvent("pclear") /\ PClear(Ev.k) /\ UNCHANGED L /\ Look
    \/ IsEvent("dkeep") /\ DKeep(Ev.k, Ev.j) /\ Look
    \/ IsEvent("wpopm") /\ WPopMove(Ev.k) /\ Look
    \/ IsEvent("borrow") /\ Ev.x = O[Ev.k] /\ ~Ev.own /\ UNCHANGED ovars /\ Look
TSpec == TInit /\ [][TNext]_vars
=============================================================================

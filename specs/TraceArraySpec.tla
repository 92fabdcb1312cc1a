--------------------------- MODULE TraceArraySpec ---------------------------
EXTENDS ArraySpec, TraceBase
vars == <<A, l>>
TInit == TraceStart /\ ArrInit
Seen == A' = Ev.s /\ Ev.live = Live'
Keep == UNCHANGED A
TNext ==
    \/ IsEvent("reset") /\ Ev.live = 0 /\ A' = [r \in Regs |-> <<>>]
    \/ IsEvent("init") /\ Put(Ev.d, Ev.v) /\ Seen
    \/ IsEvent("copy") /\ Copy(Ev.d, Ev.a) /\ Seen
    \/ IsEvent("move") /\ Move(Ev.d, Ev.a) /\ Seen
    \/ IsEvent("view") /\ FromView(Ev.d, Ev.a, Ev.from, Ev.n) /\ Seen
    \/ IsEvent("append") /\ Append1(Ev.d, Ev.v) /\ Seen
    \/ IsEvent("extend") /\ Extend(Ev.d, Sub(A[Ev.a], Ev.from, Ev.n)) /\ Seen
    \/ IsEvent("extlist") /\ Extend(Ev.d, Ev.v) /\ Seen
    \/ IsEvent("extmove") /\ ExtendMove(Ev.d, Ev.a) /\ Seen
    \/ IsEvent("concat") /\ Concat(Ev.d, Ev.a, Ev.b, Ev.ma, Ev.mb) /\ Seen
    \/ IsEvent("insert") /\ Insert(Ev.d, Ev.pos, Ev.n) /\ Seen
    \/ IsEvent("erase") /\ Erase(Ev.d, Ev.pos, Ev.n) /\ Seen
    \/ IsEvent("quick") /\ EraseQuick(Ev.d, Ev.pos, Ev.n) /\ Seen
    \/ IsEvent("resize") /\ Resize(Ev.d, Ev.n) /\ Seen
    \/ IsEvent("pop") /\ Pop(Ev.d, Ev.n) /\ Seen
    \/ IsEvent("clear") /\ Clear(Ev.d) /\ Seen
    \/ IsEvent("room") /\ Keep /\ Seen
    \/ IsEvent("set") /\ Set(Ev.d, Ev.i, Ev.v) /\ Seen
    \/ IsEvent("sort") /\ Sort(Ev.d, Ev.desc, Ev.s[Ev.d]) /\ Seen
    \/ IsEvent("find") /\ Ev.f = FindIn(A[Ev.a], Ev.v) /\ Ev.r = RFindIn(A[Ev.a], Ev.v) /\ Keep
    \/ IsEvent("at") /\ Ev.o = A[Ev.a][Ev.i + 1] /\ Ev.b = A[Ev.a][Len(A[Ev.a]) - Ev.i] /\ Keep
    \/ IsEvent("eq") /\ Ev.o = (A[Ev.a] = A[Ev.b]) /\ Keep
    \/ IsEvent("fixed") /\ Ev.o = Ev.v /\ Ev.live = Live + Len(Ev.v) /\ Keep
TSpec == TInit /\ [][TNext]_vars
=============================================================================

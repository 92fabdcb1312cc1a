------------------------- MODULE TraceSequenceSpec -------------------------
EXTENDS SequenceSpec, TraceBase
vars == <<Q, C, l>>
TInit == TraceStart /\ SInit
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Look == Ev.n = Len(Q') /\ Ev.empty = (Q' = <<>>) /\ Ev.live = Len(Q')
TNext ==
    \/ IsEvent("reset") /\ Ev.live = 0 /\ Q' = <<>> /\ C' = NoCur
    \/ IsEvent("app") /\ App(Ev.v) /\ Look
    \/ IsEvent("pop") /\ PopN(Ev.k) /\ Look
    \/ IsEvent("trunc") /\ Trunc(Ev.p) /\ Look
    \/ IsEvent("clear") /\ Empty /\ Look
    \/ IsEvent("move") /\ UNCHANGED Q /\ UNCHANGED C /\ Look
    \/ IsEvent("toarr") /\ Ev.v = Q /\ Ev.alive = Len(Q) /\ Empty /\ Look
    \/ IsEvent("ends") /\ Q # <<>> /\ Ev.h = Q[1] /\ Ev.t = Q[Len(Q)] /\ UNCHANGED <<Q, C>>
    \/ IsEvent("iter") /\ Ev.f = Q /\ Ev.c = Q /\ Ev.b = Rev(Q) /\ Ev.same /\ UNCHANGED <<Q, C>> /\ Look
    \/ IsEvent("mark") /\ Mark(Ev.k, IF Ev.end THEN Len(Q) ELSE 0)
    \/ IsEvent("read") /\ ReadAt(Ev.k, Ev.v)
    \/ IsEvent("view") /\ ViewAt(Ev.k, Ev.v, Ev.none)
    \/ IsEvent("back") /\ Back(Ev.k, Ev.v)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

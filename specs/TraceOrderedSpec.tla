-------------------------- MODULE TraceOrderedSpec --------------------------
EXTENDS OrderedSpec, TraceBase
vars == <<T, l>>
TInit == TraceStart /\ OInit
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
TNext ==
    \/ IsEvent("reset") /\ Ev.live = 0 /\ T' = <<>>
    \/ IsEvent("ins") /\ Insert(Ev.k, Ev.id)
    \/ IsEvent("rem") /\ RemoveAt(Ev.p + 1, Ev.id)
    \/ IsEvent("remid") /\ Ev.found /\ RemoveId(Ev.id)
    \/ IsEvent("last") /\ LastLess(Ev.k, Ev.id)
    \/ IsEvent("first") /\ FirstGE(Ev.k, Ev.id)
    \/ IsEvent("front") /\ Ev.id = IdAt(1) /\ UNCHANGED T
    \/ IsEvent("pop") /\ RemoveAt(1, Ev.id)
    \/ IsEvent("clear") /\ Clear
    \/ IsEvent("move") /\ UNCHANGED T
    \/ IsEvent("iter") /\ Ev.f = Ids /\ Ev.b = Rev(Ids) /\ Ev.empty = (T = <<>>) /\ Ev.live = Len(T) /\ UNCHANGED T
TSpec == TInit /\ [][TNext]_vars
=============================================================================

--------------------------- MODULE TraceLabelSpec ---------------------------
EXTENDS LabelSpec, TraceBase
vars == <<L, A, l>>
TInit == TraceStart /\ LInit
\* a string is written <<length, first byte>>
TNext ==
    \/ IsEvent("reset") /\ L' = << >> /\ A' = << >>
    \/ IsEvent("ins") /\ Insert(Ev.s, Ev.x)
    \/ IsEvent("find") /\ Find(Ev.s, Ev.x)
    \/ IsEvent("view") /\ View(Ev.x, Ev.s, Ev.at)
    \/ IsEvent("eq") /\ (Ev.same <=> Ev.x = Ev.y) /\ (Ev.valid <=> Ev.x # 0) /\ UNCHANGED <<L, A>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================

---------------------------- MODULE TraceSyncSpec ----------------------------
EXTENDS SyncSpec, TraceBase
tvars == <<C, l>>
TInit == TraceStart /\ SyncInit
TNext ==
    \/ IsEvent("reset") /\ C' = {InitConf}
    \/ IsEvent("c") /\ Call(Ev.t, Ev.op, Ev.k, Ev.a, Ev.b) /\ C' # {}
    \/ IsEvent("r") /\ Return(Ev.t, Ev.r) /\ C' # {}
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

------------------------- MODULE TraceOutputStream -------------------------
EXTENDS OutputStream, TraceBase
vars == <<ovars, l>>
TInit == TraceStart /\ OutInit
TNext ==
    \/ IsEvent("reset") /\ OutReset(Ev.kind, Ev.cap, Ev.owned, Ev.flushok)
    \/ IsEvent("write") /\ Write(Ev.b, Ev.ok, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("try") /\ Reserve(Ev.n, FALSE, Ev.r, Ev.av, Ev.b, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("make") /\ Reserve(Ev.n, TRUE, Ev.r, Ev.av, Ev.b, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("flush") /\ Flush(Ev.dev, Ev.ok, Ev.fl, Ev.dfl, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("pos") /\ SeekPos(Ev.v, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("move") /\ Move(Ev.dead, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("head") /\ Contents(Ev.v, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("contents") /\ Contents(Ev.v, Ev.d, Ev.pf, Ev.eof)
    \/ IsEvent("str") /\ MoveToString(Ev.v, Ev.dead)
    \/ IsEvent("close") /\ Close(Ev.destroyed, Ev.d, Ev.pf)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

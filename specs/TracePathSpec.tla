--------------------------- MODULE TracePathSpec ---------------------------
EXTENDS PathSpec, TraceBase
VARIABLES here, w
vars == <<here, w, l>>
TInit == TraceStart /\ here = Nowhere /\ w = FALSE
Same == UNCHANGED <<here, w>>
TNext ==
    \/ IsEvent("reset") /\ here' = Nowhere /\ w' = Ev.w
    \* the current folder is kept as a text that every step joins onto
    \/ IsEvent("cd") /\ here' = Go(w, here, Ev.p) /\ Ev.cwd = Print(w, here', Trailing(w, Ev.p)) /\ UNCHANGED w
    \/ IsEvent("join") /\ Ev.r = Join(w, Ev.q) /\ Same
    \/ IsEvent("norm") /\ Ev.r = Join(w, <<Ev.p>>) /\ (Ev.isnorm <=> Ev.p = Ev.r) /\ Same
    \/ IsEvent("rel") /\ Ev.r = Relative(w, Ev.a, Ev.d) /\ Same
    \/ IsEvent("split") /\ Ev.h = SplitHead(w, Ev.p) /\ Ev.t = SplitTail(w, Ev.p)
         /\ Ev.x = Ext(w, Ev.p) /\ Ev.s \o Ev.x = Ev.p /\ Ev.full = SplitFull(w, Ev.p) /\ Same
    \/ IsEvent("kind") /\ (Ev.abs <=> IsAbs(w, Ev.p)) /\ (Ev.rel <=> IsRel(w, Ev.p)) /\ (Ev.sep <=> EndsWithSep(w, Ev.p))
         /\ (Ev.drive <=> HasDrive(w, Ev.p)) /\ Ev.dl = (IF HasDrive(w, Ev.p) THEN SubSeq(Ev.p, 1, 2) ELSE <<>>) /\ Same
    \/ IsEvent("conv") /\ Ev.r = Convert(w, Ev.p) /\ Ev.same = Ev.p /\ Same
TSpec == TInit /\ [][TNext]_vars
=============================================================================

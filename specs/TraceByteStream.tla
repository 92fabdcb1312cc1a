-------------------------- MODULE TraceByteStream --------------------------
EXTENDS ByteStream, TraceBase

vars == <<bvars, l>>
TInit == TraceStart /\ StreamInit(<<>>, FALSE)
\* two whole reads straight from a pipe: each delivers all it was asked for, or
\* says that the source ended
PipeRead(d, p, n, ok, v) ==
    LET have == IF Len(d) - p < n THEN Len(d) - p ELSE n IN
    ok = (have = n) /\ Len(v) = n /\ SubSeq(v, 1, have) = SubSeq(d, p + 1, p + have)
PipeReads(d, n, ok, v, m, mok, w) ==
    /\ PipeRead(d, 0, n, ok, v)
    /\ PipeRead(d, IF n < Len(d) THEN n ELSE Len(d), m, mok, w)
TNext ==
    \/ IsEvent("pread") /\ PipeReads(Ev.d, Ev.n, Ev.ok, Ev.v, Ev.m, Ev.mok, Ev.w) /\ UNCHANGED bvars
    \/ IsEvent("reset") /\ StreamReset(Ev.data, Ev.view)
    \/ IsEvent("try") /\ ~done /\ TryMake(Ev.n, Ev.r, Ev.av, Ev.v, Ev.eof)
    \/ IsEvent("try") /\ done /\ Ev.r = 0 /\ Ev.eof /\ UNCHANGED bvars
    \/ IsEvent("byte") /\ ReadByte(Ev.v, Ev.eof)
    \/ IsEvent("read") /\ Read(Ev.n, Ev.ok, Ev.v, Ev.eof)
    \/ IsEvent("skip") /\ Skip(Ev.n, Ev.ok, Ev.eof)
    \/ IsEvent("adv") /\ Advance(Ev.n, Ev.v, Ev.eof)
    \/ IsEvent("pos") /\ SeekPos(Ev.v, Ev.eof)
    \/ IsEvent("save") /\ Save(Ev.k, Ev.eof)
    \/ IsEvent("drop") /\ Drop(Ev.k, Ev.eof)
    \/ IsEvent("rewind") /\ Rewind(Ev.k, Ev.eof)
    \/ IsEvent("since") /\ Since(Ev.k, Ev.v, Ev.eof)
    \/ IsEvent("toend") /\ ToEnd(Ev.k, Ev.v, Ev.eof)
    \/ IsEvent("sincem") /\ SinceMove(Ev.k, Ev.v, Ev.eof)
    \/ IsEvent("line") /\ ReadLine(Ev.v, Ev.eof)
    \/ IsEvent("move") /\ MoveStream(Ev.eof)
    \/ IsEvent("rest") /\ ReadRemaining(Ev.v, Ev.eof)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

--------------------------- MODULE TraceTextCodec ---------------------------
EXTENDS TextCodec, TraceBase
VARIABLES fmt, text, raw    \* an exporter in progress
vars == <<cvars, l, fmt, text, raw>>
F(e) == [enc |-> e.enc, crlf |-> e.crlf, bom |-> e.bom]
TInit == TraceStart /\ ConvInit /\ fmt = [enc |-> "utf8", crlf |-> FALSE, bom |-> FALSE] /\ text = <<>> /\ raw = <<>>
KeepX == UNCHANGED <<fmt, text, raw>>
TNext ==
    \/ IsEvent("reset") /\ UNCHANGED <<cvars, fmt, text, raw>>
    \/ IsEvent("conv") /\ ConvReset(Ev.src, Ev.dst) /\ KeepX
    \/ IsEvent("feed") /\ Feed(Ev.b, Ev.cap, Ev.flush, Ev.n, Ev.o) /\ KeepX
    \/ IsEvent("once") /\ Ev.o = ConvertAll(Ev.dst, Ev.src, Ev.b) /\ UNCHANGED <<cvars, fmt, text, raw>>
    \/ /\ IsEvent("loc")
       /\ LET brk == Breaks(Ev.b) IN
          \A n \in 1..Len(Ev.q) :
             /\ Located(Ev.b, Ev.q[n], brk)
             /\ Ev.q[n][6] = "(" \o ToString(Ev.q[n][2]) \o ", " \o ToString(Ev.q[n][4]) \o ")"
       /\ UNCHANGED <<cvars, fmt, text, raw>>
    \/ IsEvent("expopen") /\ fmt' = F(Ev) /\ text' = <<>> /\ raw' = Ev.d /\ UNCHANGED cvars
    \/ /\ IsEvent("expwrite") /\ text' = text \o Ev.b /\ raw' = raw \o Ev.d
       /\ UNCHANGED <<fmt, cvars>>
    \* flushed at the end of a character: everything so far is out
    \/ /\ IsEvent("expflush") /\ raw' = raw \o Ev.d /\ raw' = Export(fmt, text)
       /\ UNCHANGED <<fmt, text, cvars>>
    \/ IsEvent("import") /\ Ev.o = Import(F(Ev), Ev.raw) /\ UNCHANGED <<cvars, fmt, text, raw>>
    \/ IsEvent("detect") /\ DetectOk(Ev.raw, F(Ev)) /\ Ev.rest = Ev.raw /\ UNCHANGED <<cvars, fmt, text, raw>>
    \* written in a format and recognised again without being told
    \/ /\ IsEvent("auto") /\ DetectOk(Ev.raw, F(Ev)) /\ Ev.o = Import(F(Ev), Ev.raw)
       /\ UNCHANGED <<cvars, fmt, text, raw>>
    \/ IsEvent("export") /\ Ev.raw = Export(F(Ev), Ev.b) /\ UNCHANGED <<cvars, fmt, text, raw>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================

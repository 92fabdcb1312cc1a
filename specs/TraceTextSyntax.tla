-------------------------- MODULE TraceTextSyntax --------------------------
EXTENDS TextSyntax, TraceBase
vars == <<rvars, l>>
TInit == TraceStart /\ RInit
Same == UNCHANGED rvars
TNext ==
    \/ IsEvent("reset") /\ Open(<<>>)
    \/ IsEvent("open") /\ Open(Ev.b)
    \/ IsEvent("int") /\ ReadInt(Ev.ty, Ev.radix, Ev.n, Ev.err, Ev.w)
    \/ IsEvent("real") /\ ReadReal(Ev.radix, Ev.places, Ev.n, Ev.err, Ev.q)
    \/ IsEvent("quoted") /\ ReadQuoted(Ev.single, Ev.n, Ev.err, Ev.codes, Ev.o)
    \/ IsEvent("ident") /\ ReadIdent(Ev.dollar, Ev.dash, Ev.n, Ev.ok, Ev.err)
    \/ IsEvent("white") /\ ReadWhite(Ev.yes, Ev.n, Ev.o)
    \/ IsEvent("line") /\ ReadLine(Ev.n, Ev.err, Ev.o)
    \/ IsEvent("print") /\ PrintOk(Ev.ty, Ev.w, Ev.radix, Ev.cap, Ev.o) /\ Same
    \* a string is a number only as a whole
    \/ /\ IsEvent("to") /\ Same
       /\ LET t == Trim(Ev.b)
              p == ParseInt(t, 1, Ev.ty, 10) IN
          Ev.w = IF ~p[2] /\ p[3] = Len(t) + 1 THEN p[1] ELSE Ev.def
    \/ IsEvent("eighths") /\ Ev.k = 0 /\ Same /\ Ev.o = <<48, 46, 48, 48, 48>>
    \/ IsEvent("eighths") /\ Ev.k # 0 /\ Same /\ PrintRealOk(Ev.k < 0, Abs(Ev.k) * 125, -3, Ev.o)
       /\ \/ \E k \in 1..Len(Ev.o) : Ev.o[k] = 101
          \/ LET p == ParseReal(Ev.o, 1, 10) IN Scaled(p.ds, 1, p.pt + 3, 10, 0) = Abs(Ev.k) * 125
    \/ IsEvent("printreal") /\ PrintRealOk(Ev.neg, Ev.m, Ev.x, Ev.o) /\ Same
    \/ IsEvent("escape") /\ Ev.o = Escape(Ev.kind, Ev.b, Ev.max) /\ Same
    \/ IsEvent("crtarg") /\ CrtArg(Ev.o) = Ev.b /\ Same
    \/ IsEvent("format") /\ Ev.o = Format(Ev.f, Ev.args) /\ Same
TSpec == TInit /\ [][TNext]_vars
=============================================================================

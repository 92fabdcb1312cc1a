------------------------- MODULE TraceCrowbarSpec -------------------------
(* Recorded scripts: what was read, what running them did.                  *)
EXTENDS TraceBase, CrowbarSpec

Reset == IsEvent("reset")
Value(v) == CASE v.t = "u32" -> U(v.n) [] v.t = "String" -> S(v.s)
Program ==
    /\ IsEvent("prog")
    /\ LET toks == Toks(Ev.p)
           places == Places(toks, Ev.seps)
           cs == Complaints(Ev.p, places)
       IN /\ Assert(\A i \in DOMAIN Ev.p : Ev.p[i].k = "fn" => WellS(Ev.p[i].b), "not well written")
          /\ Assert(Len(Ev.seps) = Len(toks) + 1 /\ \A i \in DOMAIN toks : NlOk(Ev.seps[i], toks[i].nl), "separators")
          /\ Assert(\A i \in DOMAIN toks : toks[i].at \in {0, i}, "token numbers")
          /\ Assert(Ev.text = Weave(toks, Ev.seps), "text")
          /\ Ev.tree = MeanP(Ev.p)
          /\ Ev.errs = cs
          /\ IF cs # <<>> THEN Ev.runs = <<>>
             ELSE \A k \in DOMAIN Ev.runs :
                    LET run == Ev.runs[k]
                        w == Run(Ev.p, [name |-> S(run.name), value |-> U(run.value)], Ev.type)
                    IN /\ run.out = w.out
                       /\ IF w.er = <<>> THEN run.rep = <<>> ELSE Len(run.rep) = 1 /\ Report(w.er[1], run.rep[1], places)
                       /\ S(run.name2) = w.obj.name /\ U(run.value2) = w.obj.value
                       /\ run.same          \* running a program does not change it
\* any other text: errors, if any, lie inside it
Other ==
    /\ IsEvent("any")
    /\ \A i \in DOMAIN Ev.at : LET p == Ev.at[i] IN
         /\ p[1] \in 1..Len(Ev.lines)
         /\ p[2] >= 1 /\ p[2] <= Ev.lines[p[1]] + 1
\* places in any text
Place ==
    /\ IsEvent("loc")
    /\ LET step(acc, c) == IF c = 10 THEN <<acc[1] + 1, 1>> ELSE IF c = 13 THEN acc ELSE <<acc[1], acc[2] + 1>>
           all == FoldLeft(LAMBDA acc, c : [p |-> step(acc.p, c), r |-> Append(acc.r, step(acc.p, c))], [p |-> <<1, 1>>, r |-> <<<<1, 1>>>>], Ev.cps).r
       IN Ev.at = all

TInit == TraceStart
TNext == Reset \/ Program \/ Other \/ Place
TSpec == TInit /\ [][TNext]_l
=============================================================================

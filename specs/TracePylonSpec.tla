--------------------------- MODULE TracePylonSpec ---------------------------
EXTENDS PylonSpec, TraceBase
VARIABLES slot
vars == <<slot, l>>
TInit == TraceStart /\ slot = <<>>
Has(j) == j \in DOMAIN slot
Keep(j, n) == slot' = (j :> n) @@ slot
Drop(j) == slot' = [i \in (DOMAIN slot) \ {j} |-> slot[i]]
Here == Sub(slot[Ev.j], Ev.path)
\* every recorded tree is the whole tree of the slot after the step
Shows(n) == Ev.tree = n
Plant(c) == Put(slot[Ev.j], Ev.path, c)
TNext ==
    \/ IsEvent("reset") /\ slot' = <<>>
    \/ /\ IsEvent("parse")
       /\ LET r == Parse(Ev.s) IN
          IF r.ok THEN /\ Ev.ok /\ Ev.errors = 0 /\ Ev.tree = r.v /\ Keep(Ev.j, r.v)
          ELSE /\ ~Ev.ok /\ Ev.errors = 1 /\ Ev.at >= r.lo /\ Ev.at <= r.hi /\ Ev.ctx = r.ctx
               /\ Ev.tree = NotRead /\ UNCHANGED slot
    \/ IsEvent("text") /\ Shows(Text(Ev.o, Ev.b)) /\ Keep(Ev.j, Ev.tree)
    \/ IsEvent("array") /\ Shows([k |-> "a", o |-> Ev.o, v |-> <<>>]) /\ Keep(Ev.j, Ev.tree)
    \/ IsEvent("object") /\ Shows([k |-> "o", o |-> Ev.o, v |-> <<>>]) /\ Keep(Ev.j, Ev.tree)
    \* writing: any text that means this tree
    \/ /\ IsEvent("write") /\ Has(Ev.j)
       /\ LET r == Parse(Ev.r) IN r.ok /\ Shape(r.v) = Shape(slot[Ev.j])
       /\ UNCHANGED slot
    \/ IsEvent("copy") /\ Has(Ev.from) /\ Shows(slot[Ev.from]) /\ Keep(Ev.j, Ev.tree)
    \/ IsEvent("drop") /\ Drop(Ev.j)
    \/ /\ IsEvent("set") /\ Has(Ev.j) /\ Has(Ev.c) /\ Ev.c # Ev.j
       /\ LET u == Plant(Set(Here, Ev.key, slot[Ev.c])) IN
          /\ Shows(u) /\ Ev.same                              \* the result is the node that was stored
          /\ slot' = [i \in (DOMAIN slot) \ {Ev.c} |-> IF i = Ev.j THEN u ELSE slot[i]]
    \/ /\ IsEvent("push") /\ Has(Ev.j) /\ Has(Ev.c) /\ Ev.c # Ev.j
       /\ LET u == Plant(Push(Here, slot[Ev.c])) IN
          /\ Shows(u)
          /\ slot' = [i \in (DOMAIN slot) \ {Ev.c} |-> IF i = Ev.j THEN u ELSE slot[i]]
    \/ /\ IsEvent("settext") /\ Has(Ev.j)
       /\ LET u == Plant(SetText(Here, Ev.b)) IN Shows(u) /\ slot' = [slot EXCEPT ![Ev.j] = u]
    \/ /\ IsEvent("remove") /\ Has(Ev.j)
       /\ LET u == Plant(Remove(Here, Ev.key))
              f == Find(Here, Ev.key)
          IN  /\ Shows(u) /\ (Ev.found <=> f > 0)
              /\ IF f > 0 THEN /\ Ev.r = Here.v[f].c
                               /\ slot' = (Ev.c :> Ev.r) @@ [slot EXCEPT ![Ev.j] = u]
                 ELSE UNCHANGED slot
    \/ IsEvent("get") /\ Has(Ev.j) /\ Ev.r = Get(Here, Ev.key) /\ Ev.is = Ev.r.k /\ UNCHANGED slot
    \/ IsEvent("at") /\ Has(Ev.j) /\ Ev.r = At(Here, Ev.i)
         /\ Ev.n = (IF Here.k = "a" THEN Len(Here.v) ELSE 0) /\ Ev.m = (IF Here.k = "o" THEN Len(Here.v) ELSE 0)
         /\ Ev.t = (IF Here.k = "t" THEN Here.v ELSE <<>>) /\ UNCHANGED slot
TSpec == TInit /\ [][TNext]_vars
=============================================================================

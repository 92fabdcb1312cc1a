------------------------------ MODULE MCPylon ------------------------------
(* Bounded models over PylonSpec, three parts chosen by Part:               *)
(*  "text": every short text - writing what was read and reading it again   *)
(*          gives the same tree; faults lie inside the text; blanks only    *)
(*          shift offsets; all separators mean the same                     *)
(*  "quote": the one-pass automaton that counts runs of quotes, as the      *)
(*          implementation does, ends where and with what String says       *)
(*  "tree": an object as items plus an index from key to item number that   *)
(*          set, replace and remove keep up, against Set/Remove/Get         *)
EXTENDS PylonSpec
CONSTANTS Part, Alphabet, MaxLen
VARIABLES s, p, run, m, acc, st, tree, items, index, n
vars == <<s, p, run, m, acc, st, tree, items, index, n>>

Keys == {<<97>>, <<98>>, <<99>>, <<>>}
Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
Obj0 == [k |-> "o", o |-> 0, v |-> <<>>]
Init == /\ p = 1 /\ run = 1 /\ m = FALSE /\ acc = <<>> /\ st = "on" /\ n = 0
        /\ tree = Obj0 /\ items = <<>> /\ index = <<>>
        /\ s \in (IF Part = "text" THEN Texts ELSE IF Part = "quote" THEN {<<34>> \o t : t \in Texts} ELSE {<<>>})

\* ---- quote: the automaton ----------------------------------------------
RECURSIVE Rep(_, _)
Rep(c, k) == IF k = 0 THEN <<>> ELSE <<c>> \o Rep(c, k - 1)
Step ==
    /\ Part = "quote" /\ st = "on"
    /\ UNCHANGED <<s, tree, items, index, n>>
    /\ LET c == C(s, p) IN
       IF c = 34
       THEN /\ p' = p + 1 /\ UNCHANGED acc
            /\ IF run = 0 THEN (IF m THEN run' = 1 /\ UNCHANGED <<m, st>> ELSE st' = "done" /\ UNCHANGED <<run, m>>)
               ELSE IF run + 1 < 3 THEN run' = run + 1 /\ UNCHANGED <<m, st>>
               ELSE IF m THEN st' = "done" /\ UNCHANGED <<run, m>>
               ELSE m' = TRUE /\ run' = 0 /\ UNCHANGED st
       ELSE IF run = 2 /\ ~m
       THEN st' = "done" /\ UNCHANGED <<p, run, m, acc>>                  \* the empty string
       ELSE LET held == IF m THEN Rep(34, run) ELSE <<>> IN
            /\ run' = 0 /\ UNCHANGED m
            /\ IF c = -1 THEN st' = "bad" /\ UNCHANGED <<p, acc>>
               ELSE IF c \in {10, 13} THEN
                    IF m THEN p' = p + 1 /\ acc' = acc \o held \o (IF c = 10 THEN <<10>> ELSE <<>>) /\ UNCHANGED st
                    ELSE st' = "bad" /\ UNCHANGED <<p, acc>>
               ELSE IF c = 92 THEN
                    IF Escape(C(s, p + 1)) >= 0
                    THEN p' = p + 2 /\ acc' = acc \o held \o <<Escape(C(s, p + 1))>> /\ UNCHANGED st
                    ELSE st' = "bad" /\ UNCHANGED <<p, acc>>
               ELSE p' = p + 1 /\ acc' = acc \o held \o <<c>> /\ UNCHANGED st
QuoteAgrees ==
    Part = "quote" =>
    /\ st = "done" => LET t == String(s, 0) IN t.t = "text" /\ t.x = acc /\ t.to = p
    /\ st = "bad" => String(s, 0).t = "bad"

\* ---- tree ----------------------------------------------------------------
Idx(k) == IF k \in DOMAIN index THEN index[k] ELSE -1
SetK(k) ==
    /\ tree' = Set(tree, k, Text(0, <<n>>))
    /\ IF Idx(k) >= 0 THEN items' = [items EXCEPT ![Idx(k) + 1].c = Text(0, <<n>>)] /\ UNCHANGED index
       ELSE items' = Append(items, [n |-> k, c |-> Text(0, <<n>>)]) /\ index' = (k :> Len(items)) @@ index
RemK(k) ==
    /\ Idx(k) >= 0
    /\ tree' = Remove(tree, k)
    /\ items' = SubSeq(items, 1, Idx(k)) \o SubSeq(items, Idx(k) + 2, Len(items))
    /\ index' = [j \in (DOMAIN index) \ {k} |-> IF index[j] > index[k] THEN index[j] - 1 ELSE index[j]]
TreeStep == /\ Part = "tree" /\ n < MaxLen /\ n' = n + 1
            /\ UNCHANGED <<s, p, run, m, acc, st>>
            /\ \E k \in Keys : SetK(k) \/ RemK(k)
IndexAgrees ==
    Part = "tree" =>
    /\ tree.v = items
    /\ \A i, j \in 1..Len(items) : items[i].n = items[j].n => i = j
    /\ \A k \in Keys : Get(tree, k) = (IF Idx(k) >= 0 THEN items[Idx(k) + 1].c ELSE NotRead)
    /\ Parse(Write(tree)).ok /\ Shape(Parse(Write(tree)).v) = Shape(tree)

\* ---- text -----------------------------------------------------------------
RECURSIVE Moved(_, _)
Moved(v, d) ==
    CASE v.k = "a" -> [k |-> "a", o |-> v.o + d, v |-> [i \in 1..Len(v.v) |-> Moved(v.v[i], d)]]
      [] v.k = "o" -> [k |-> "o", o |-> v.o + d, v |-> [i \in 1..Len(v.v) |-> [n |-> v.v[i].n, c |-> Moved(v.v[i].c, d)]]]
      [] OTHER -> [v EXCEPT !.o = @ + d]
Laws ==
    Part = "text" =>
    LET r == Parse(s)
        w == Parse(Write(r.v))
        sh == Parse(<<32, 10>> \o s)
        semi == Parse([i \in 1..Len(s) |-> IF s[i] = 44 THEN 59 ELSE s[i]])
        eq == Parse([i \in 1..Len(s) |-> IF s[i] = 58 THEN 61 ELSE s[i]])
        inArr == Parse(<<91>> \o s \o <<10, 93>>)
    IN  IF r.ok
        THEN /\ w.ok /\ Shape(w.v) = Shape(r.v)
             /\ sh.ok /\ sh.v = Moved(r.v, 2)
             /\ inArr.ok /\ inArr.v.v = <<Moved(r.v, 1)>>
             /\ (34 \notin {s[i] : i \in 1..Len(s)} => semi.ok /\ semi.v = r.v /\ eq.ok /\ eq.v = r.v)
        ELSE /\ 0 <= r.lo /\ r.lo <= r.hi /\ r.lo <= Len(s)
             /\ ~sh.ok /\ sh.lo = r.lo + 2 /\ sh.hi = r.hi + 2
             /\ \A i \in 1..Len(r.ctx) : r.ctx[i].o <= r.hi
Next == Step \/ TreeStep
Spec == Init /\ [][Next]_vars
=============================================================================

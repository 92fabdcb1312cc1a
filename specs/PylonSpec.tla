----------------------------- MODULE PylonSpec -----------------------------
(* Pylon, the data notation of plywood: what a text means, where its nodes  *)
(* start, which texts are errors and where; and the operations on a tree.   *)
(* Texts are sequences of bytes. A node is [k, o, v]: kind, offset in the   *)
(* text it was read from, contents.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NotRead == [k |-> "i", o |-> 0, v |-> <<>>]
Text(o, b) == [k |-> "t", o |-> o, v |-> b]

C(s, p) == IF p < Len(s) THEN s[p + 1] ELSE -1          \* byte at offset p; -1 past the end
IsWordByte(c) == c \in {95, 36, 45, 46} \/ (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
                 \/ (c >= 48 /\ c <= 57) \/ c >= 128
Hex(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
          ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1

\* ---- tokens: [t, at, to, x] -------------------------------------------
Tok(t, at, to, x) == [t |-> t, at |-> at, to |-> to, x |-> x]
\* a string that is not one: the fault lies between its start and `to`
Bad(at, to) == Tok("bad", at, to, <<>>)

RECURSIVE WordEnd(_, _)
WordEnd(s, p) == IF IsWordByte(C(s, p)) THEN WordEnd(s, p + 1) ELSE p

Escape(c) == CASE c = 114 -> 13 [] c = 110 -> 10 [] c = 116 -> 9
               [] c \in {92, 39, 34} -> c [] OTHER -> -1

RECURSIVE Quoted(_, _, _, _, _)
\* `at`: where the string starts; p: next byte; q: the quote; m: between triple quotes
Quoted(s, at, p, m, acc) ==
    LET q == C(s, at)
        c == C(s, p)
    IN  CASE c = -1 -> Bad(at, p)
          [] c = q /\ ~m -> Tok("text", at, p + 1, acc)
          [] c = q /\ m /\ C(s, p + 1) = q /\ C(s, p + 2) = q -> Tok("text", at, p + 3, acc)
          [] c = 13 \/ c = 10 -> IF ~m THEN Bad(at, p)
                                 ELSE Quoted(s, at, p + 1, m, IF c = 10 THEN Append(acc, c) ELSE acc)
          [] c = 92 ->
               LET e == C(s, p + 1) IN
               IF e = 120 THEN IF Hex(C(s, p + 2)) >= 0 /\ Hex(C(s, p + 3)) >= 0
                               THEN Quoted(s, at, p + 4, m, Append(acc, 16 * Hex(C(s, p + 2)) + Hex(C(s, p + 3))))
                               ELSE Bad(at, p + 4)
               ELSE IF Escape(e) >= 0 THEN Quoted(s, at, p + 2, m, Append(acc, Escape(e)))
               ELSE Bad(at, p + 2)
          [] OTHER -> Quoted(s, at, p + 1, m, Append(acc, c))

String(s, at) ==
    LET q == C(s, at) IN
    IF C(s, at + 1) # q THEN Quoted(s, at, at + 1, FALSE, <<>>)
    ELSE IF C(s, at + 2) # q THEN Tok("text", at, at + 2, <<>>)
    ELSE Quoted(s, at, at + 3, TRUE, <<>>)

Punct == (123 :> "{") @@ (125 :> "}") @@ (91 :> "[") @@ (93 :> "]") @@ (58 :> ":") @@ (61 :> "=")
         @@ (44 :> ",") @@ (59 :> ";")

RECURSIVE Next1(_, _, _)
Next1(s, p, nl) ==
    LET c == C(s, p) IN
    CASE c \in {32, 9, 13} -> Next1(s, p + 1, nl)
      [] c = 10 -> IF nl THEN Tok("nl", p, p + 1, <<>>) ELSE Next1(s, p + 1, nl)
      [] c = -1 -> Tok("end", p, p, <<>>)
      [] c \in DOMAIN Punct -> Tok(Punct[c], p, p + 1, <<>>)
      [] c \in {34, 39} -> String(s, p)
      [] IsWordByte(c) -> Tok("text", p, WordEnd(s, p), SubSeq(s, p + 1, WordEnd(s, p)))
      [] OTHER -> Tok("junk", p, p, <<>>)

\* ---- values ------------------------------------------------------------
Ok(v, to) == [ok |-> TRUE, v |-> v, to |-> to]
\* an error: where (an interval), inside which objects, properties and arrays
Err(lo, hi, ctx) == [ok |-> FALSE, lo |-> lo, hi |-> hi, ctx |-> ctx]
ErrAt(t, ctx) == IF t.t = "bad" THEN Err(t.at, t.to, ctx) ELSE Err(t.at, t.at, ctx)
Scope(t, o, n, i) == [t |-> t, o |-> o, n |-> n, i |-> i]

RECURSIVE Value(_, _, _), Items(_, _, _, _, _), Props(_, _, _, _, _)

Value(s, t, ctx) ==
    CASE t.t = "{" -> Props(s, t.to, Append(ctx, Scope(0, t.at, <<>>, 0)), <<>>, TRUE)
      [] t.t = "[" -> Items(s, t.to, ctx, t.at, <<>>)
      [] t.t = "text" -> Ok(Text(t.at, t.x), t.to)
      [] OTHER -> ErrAt(t, ctx)

Items(s, p, ctx, at, acc) ==
    LET t == Next1(s, p, TRUE) IN
    CASE t.t = "]" -> Ok([k |-> "a", o |-> at, v |-> acc], t.to)
      [] t.t \in {",", ";", "nl"} -> Items(s, t.to, ctx, at, acc)
      [] OTHER -> LET r == Value(s, t, Append(ctx, Scope(3, at, <<>>, Len(acc)))) IN
                  IF r.ok THEN Items(s, r.to, ctx, at, Append(acc, r.v)) ELSE r

\* acc: properties read so far, each [n, c, po]; sep: a separator (or the start) came before
Props(s, p, ctx, acc, sep) ==
    LET t == Next1(s, p, TRUE)
        dup == {i \in 1..Len(acc) : acc[i].n = t.x}
        colon == Next1(s, t.to, FALSE)
        r == Value(s, Next1(s, colon.to, FALSE), Append(ctx, Scope(1, t.at, t.x, 0)))
    IN  CASE t.t = "}" -> Ok([k |-> "o", o |-> ctx[Len(ctx)].o,
                              v |-> [i \in 1..Len(acc) |-> [n |-> acc[i].n, c |-> acc[i].c]]], t.to)
          [] t.t \in {",", ";", "nl"} -> Props(s, t.to, ctx, acc, TRUE)
          [] t.t # "text" \/ ~sep -> ErrAt(t, ctx)
          [] dup # {} -> Err(t.at, t.at, Append(ctx, Scope(2, acc[CHOOSE i \in dup : TRUE].po, <<>>, 0)))
          [] colon.t \notin {":", "="} -> ErrAt(colon, ctx)
          [] OTHER -> IF r.ok THEN Props(s, r.to, ctx, Append(acc, [n |-> t.x, c |-> r.v, po |-> t.at]), FALSE)
                      ELSE r

Parse(s) ==
    LET r == Value(s, Next1(s, 0, FALSE), <<>>)
        rest == Next1(s, r.to, FALSE)
    IN  IF ~r.ok THEN r ELSE IF rest.t # "end" THEN ErrAt(rest, <<>>) ELSE r

\* ---- trees -------------------------------------------------------------
RECURSIVE Shape(_)
\* a tree without the offsets
Shape(n) ==
    CASE n.k = "a" -> [k |-> "a", v |-> [i \in 1..Len(n.v) |-> Shape(n.v[i])]]
      [] n.k = "o" -> [k |-> "o", v |-> [i \in 1..Len(n.v) |-> [n |-> n.v[i].n, c |-> Shape(n.v[i].c)]]]
      [] OTHER -> [k |-> n.k, v |-> n.v]

Find(n, key) == IF n.k # "o" THEN 0
                ELSE IF \E i \in 1..Len(n.v) : n.v[i].n = key
                     THEN CHOOSE i \in 1..Len(n.v) : n.v[i].n = key ELSE 0
Get(n, key) == IF Find(n, key) = 0 THEN NotRead ELSE n.v[Find(n, key)].c
At(n, i) == IF n.k # "a" \/ i >= Len(n.v) THEN NotRead ELSE n.v[i + 1]
Set(n, key, c) ==
    IF n.k # "o" THEN n
    ELSE IF Find(n, key) > 0 THEN [n EXCEPT !.v[Find(n, key)].c = c]
    ELSE [n EXCEPT !.v = Append(@, [n |-> key, c |-> c])]
Remove(n, key) ==
    LET f == Find(n, key) IN
    IF f = 0 THEN n ELSE [n EXCEPT !.v = SubSeq(@, 1, f - 1) \o SubSeq(@, f + 1, Len(@))]
Push(n, c) == IF n.k # "a" THEN n ELSE [n EXCEPT !.v = Append(@, c)]
SetText(n, b) == IF n.k # "t" THEN n ELSE [n EXCEPT !.v = b]

\* a path is a sequence of item numbers (0-based) from the root
RECURSIVE Sub(_, _), Put(_, _, _)
Sub(n, path) == IF path = <<>> THEN n
                ELSE Sub(IF n.k = "a" THEN n.v[path[1] + 1] ELSE n.v[path[1] + 1].c, Tail(path))
Put(n, path, c) ==
    IF path = <<>> THEN c
    ELSE IF n.k = "a" THEN [n EXCEPT !.v[path[1] + 1] = Put(@, Tail(path), c)]
    ELSE [n EXCEPT !.v[path[1] + 1].c = Put(@, Tail(path), c)]

\* ---- a writer: one of the texts that mean a given tree -----------------
RECURSIVE Join(_, _), Write(_)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
EscByte(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 13 -> <<92, 114>>
                [] b = 10 -> <<92, 110>> [] b = 9 -> <<92, 116>>
                [] b < 32 -> <<92, 120, HexDigit(b \div 16), HexDigit(b % 16)>> [] OTHER -> <<b>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
WriteText(b) == <<34>> \o Flat([i \in 1..Len(b) |-> EscByte(b[i])]) \o <<34>>
Write(n) ==
    CASE n.k = "t" -> WriteText(n.v)
      [] n.k = "a" -> <<91>> \o Join([i \in 1..Len(n.v) |-> Write(n.v[i])], <<44>>) \o <<93>>
      [] n.k = "o" -> <<123>> \o Join([i \in 1..Len(n.v) |-> WriteText(n.v[i].n) \o <<58>> \o Write(n.v[i].c)], <<44>>) \o <<125>>
=============================================================================

---------------------------- MODULE ReflectSpec ----------------------------
(* Reflected objects: saving one with the description of its type, loading  *)
(* it into a type that may have changed since, and the pylon form of it.    *)
(*                                                                          *)
(* The types are a sequence of descriptions that name each other by their   *)
(* position, so that a type can contain itself:                             *)
(*   [k |-> kind, t |-> item type, n |-> count, e |-> enumeration,          *)
(*    s |-> name, m |-> <<[n |-> member name, v |-> its type or value]>>]   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IntKinds == {"bool", "s8", "s16", "s32", "s64", "u8", "u16", "u32", "u64"}
FloatKinds == {"float", "double"}
PrimKinds == IntKinds \union FloatKinds

\* ---- numbers: integers as four 16-bit words, floats in eighths ----
Sign(x) == IF x >= 32768 THEN 65535 ELSE 0
Norm(w, k) ==
    CASE k = "u8" -> <<w[1] % 256, 0, 0, 0>>
      [] k = "s8" -> LET b == w[1] % 256 IN IF b < 128 THEN <<b, 0, 0, 0>> ELSE <<65280 + b, 65535, 65535, 65535>>
      [] k = "u16" -> <<w[1], 0, 0, 0>>
      [] k = "s16" -> <<w[1], Sign(w[1]), Sign(w[1]), Sign(w[1])>>
      [] k = "u32" -> <<w[1], w[2], 0, 0>>
      [] k = "s32" -> <<w[1], w[2], Sign(w[2]), Sign(w[2])>>
      [] k = "bool" -> <<IF w[1] + w[2] = 0 THEN 0 ELSE 1, 0, 0, 0>>
      [] OTHER -> w
WordsOf(n) == IF n >= 0 THEN <<n % 65536, n \div 65536, 0, 0>>
              ELSE LET m == (-n) - 1 IN <<65535 - (m % 65536), 65535 - (m \div 65536), 65535, 65535>>
\* only asked for numbers of at most 24 bits
NumberOf(w) == IF w[4] >= 32768 THEN -((65535 - w[1]) + (65536 * (65535 - w[2])) + 1)
               ELSE w[1] + (65536 * w[2])
Toward0(e) == IF e >= 0 THEN e \div 8 ELSE -((-e) \div 8)
Null == [k |-> "null"]
Open == [k |-> "open"]     \* left to the implementation
IntVal(w) == [k |-> "int", w |-> w]
FltVal(e) == [k |-> "flt", e |-> e]
\* a float is exact up to 24 bits, and gives an integer when its whole part fits
Convert(v, f, t) ==
    IF t \in IntKinds
    THEN IF f \in IntKinds THEN IntVal(Norm(v.w, t))
         ELSE LET w == WordsOf(Toward0(v.e)) IN IF t = "bool" \/ Norm(w, t) = w THEN IntVal(Norm(w, t)) ELSE Open
    ELSE IF f \in FloatKinds THEN v
         ELSE IF (v.w[4] = 0 /\ v.w[3] = 0 /\ v.w[2] < 256) \/ (v.w[4] = 65535 /\ v.w[3] = 65535 /\ v.w[2] >= 65280)
         THEN FltVal(8 * NumberOf(v.w)) ELSE Open

SeqVal(s) == [k |-> "seq", s |-> s]
Named(m, n) == {i \in DOMAIN m : m[i].n = n}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j

\* the description that travels with a typed array or a saved object
RECURSIVE Shape(_, _)
Shape(ty, t) ==
    LET T == ty[t] IN
    CASE T.k = "struct" -> [k |-> "struct", c |-> Len(T.m), m |-> [i \in DOMAIN T.m |-> [n |-> T.m[i].n, t |-> Shape(ty, T.m[i].v)]]]
      [] T.k = "array" -> [k |-> "array", c |-> 0, m |-> <<[n |-> "", t |-> Shape(ty, T.t)]>>]
      [] T.k = "fixed" -> [k |-> "fixed", c |-> T.n, m |-> <<[n |-> "", t |-> Shape(ty, T.t)]>>]
      [] OTHER -> [k |-> T.k, c |-> 0, m |-> <<>>]
NoShape == [k |-> "struct", c |-> 0, m |-> <<>>]

\* ---- a new object; z: its memory is known to have been cleared ----
RECURSIVE Def(_, _, _)
Def(ty, t, z) ==
    LET T == ty[t] IN
    CASE T.k \in IntKinds -> IF z THEN IntVal(<<0, 0, 0, 0>>) ELSE Open
      [] T.k \in FloatKinds -> IF z THEN FltVal(0) ELSE Open
      [] T.k = "string" -> [k |-> "str", s |-> ""]
      [] T.k = "fixed" -> SeqVal([i \in 1..T.n |-> Def(ty, T.t, z)])
      [] T.k = "array" -> SeqVal(<<>>)
      [] T.k \in {"owned", "raw"} -> Null
      [] T.k = "struct" -> SeqVal([i \in DOMAIN T.m |-> Def(ty, T.m[i].v, TRUE)])
      [] T.k = "enum" -> IF z THEN [k |-> "enum", x |-> 0] ELSE Open
      [] T.k = "eia" -> SeqVal([i \in DOMAIN ty[T.e].m |-> Def(ty, T.t, z)])
      [] T.k = "switch" -> [k |-> "switch", x |-> 0, v |-> Def(ty, T.m[1].v, TRUE)]
      [] T.k = "typed" -> [k |-> "typed", ty |-> NoShape, s |-> <<>>]
      [] T.k = "any" -> [k |-> "any", ty |-> NoShape, v |-> Null]

\* ---- the object of type t made from value v saved with type f ----
RECURSIVE Load(_, _, _, _, _)
Load(ty, f, v, t, z) ==
    LET F == ty[f]
        T == ty[t]
        fresh == Def(ty, t, z)
    IN
    CASE T.k \in PrimKinds -> IF F.k \in PrimKinds THEN Convert(v, F.k, T.k) ELSE fresh
      [] T.k # F.k -> fresh                                    \* nothing else converts
      [] T.k \in {"string", "raw"} -> v
      [] T.k = "fixed" ->
            IF F.n = T.n THEN SeqVal([i \in 1..T.n |-> Load(ty, F.t, v.s[i], T.t, z)]) ELSE fresh
      [] T.k = "array" -> SeqVal([i \in DOMAIN v.s |-> Load(ty, F.t, v.s[i], T.t, FALSE)])
      [] T.k = "owned" -> IF v.k = "null" THEN Null
                          ELSE [k |-> "owned", id |-> v.id, v |-> Load(ty, F.t, v.v, T.t, FALSE)]
      [] T.k = "struct" ->
            SeqVal([i \in DOMAIN T.m |->
                LET S == Named(F.m, T.m[i].n) IN
                IF S = {} THEN Def(ty, T.m[i].v, TRUE)
                ELSE Load(ty, F.m[Least(S)].v, v.s[Least(S)], T.m[i].v, TRUE)])
      [] T.k = "enum" ->
            LET name == F.m[Least({i \in DOMAIN F.m : F.m[i].v = v.x})].n
                S == Named(T.m, name)
            IN IF S = {} THEN fresh ELSE [k |-> "enum", x |-> T.m[Least(S)].v]
      [] T.k = "eia" ->
            SeqVal([i \in DOMAIN ty[T.e].m |->
                LET S == Named(ty[F.e].m, ty[T.e].m[i].n) IN
                IF S = {} THEN Def(ty, T.t, z) ELSE Load(ty, F.t, v.s[Least(S)], T.t, z)])
      [] T.k = "switch" ->
            LET S == Named(T.m, F.m[v.x + 1].n) IN
            IF S = {} THEN fresh
            ELSE [k |-> "switch", x |-> Least(S) - 1, v |-> Load(ty, F.m[v.x + 1].v, v.v, T.m[Least(S)].v, TRUE)]
      [] T.k \in {"typed", "any"} -> v                         \* they bring their own type

\* ---- which owned objects a value holds, in the order of its members ----
RECURSIVE Ids(_), IdsOf(_)
Ids(v) == CASE v.k = "seq" -> IdsOf(v.s)
            [] v.k = "owned" -> <<v.id>> \o Ids(v.v)
            [] v.k = "switch" -> Ids(v.v)
            [] OTHER -> <<>>
IdsOf(s) == IF s = <<>> THEN <<>> ELSE Ids(Head(s)) \o IdsOf(Tail(s))

\* o is the value as seen, where a pointer gives the position of its target among the owned objects
RECURSIVE Same(_, _, _)
Same(v, o, ids) ==
    CASE v.k = "open" -> TRUE
      [] v.k # o.k -> FALSE
      [] v.k = "seq" -> Len(v.s) = Len(o.s) /\ \A i \in DOMAIN v.s : Same(v.s[i], o.s[i], ids)
      [] v.k = "owned" -> Same(v.v, o.v, ids)
      [] v.k = "raw" -> o.id \in DOMAIN ids /\ ids[o.id] = v.id
      [] v.k = "switch" -> v.x = o.x /\ Same(v.v, o.v, ids)
      [] OTHER -> v = o
Seen(v, o) == Same(v, o, Ids(v))

\* can be saved again: nothing absent, nothing undefined, every enumeration value has a name
RECURSIVE Savable(_, _, _)
Savable(ty, t, v) ==
    LET T == ty[t] IN
    CASE v.k \in {"open", "null"} -> FALSE
      [] T.k \in {"fixed", "array", "eia"} -> \A i \in DOMAIN v.s : Savable(ty, T.t, v.s[i])
      [] T.k = "struct" -> \A i \in DOMAIN v.s : Savable(ty, T.m[i].v, v.s[i])
      [] T.k = "owned" -> Savable(ty, T.t, v.v)
      [] T.k = "enum" -> \E i \in DOMAIN T.m : T.m[i].v = v.x
      [] T.k = "switch" -> Savable(ty, T.m[v.x + 1].v, v.v)
      [] OTHER -> TRUE

\* a value of the type
RECURSIVE Fits(_, _, _)
Fits(ty, t, v) ==
    LET T == ty[t] IN
    \/ v.k = "open"
    \/ CASE T.k \in IntKinds -> v.k = "int" /\ Norm(v.w, T.k) = v.w
         [] T.k \in FloatKinds -> v.k = "flt"
         [] T.k = "string" -> v.k = "str"
         [] T.k = "fixed" -> v.k = "seq" /\ Len(v.s) = T.n /\ \A i \in DOMAIN v.s : Fits(ty, T.t, v.s[i])
         [] T.k = "array" -> v.k = "seq" /\ \A i \in DOMAIN v.s : Fits(ty, T.t, v.s[i])
         [] T.k = "owned" -> v.k = "null" \/ (v.k = "owned" /\ Fits(ty, T.t, v.v))
         [] T.k = "raw" -> v.k \in {"null", "raw"}
         [] T.k = "struct" -> v.k = "seq" /\ Len(v.s) = Len(T.m) /\ \A i \in DOMAIN v.s : Fits(ty, T.m[i].v, v.s[i])
         [] T.k = "enum" -> v.k = "enum"
         [] T.k = "eia" -> v.k = "seq" /\ Len(v.s) = Len(ty[T.e].m) /\ \A i \in DOMAIN v.s : Fits(ty, T.t, v.s[i])
         [] T.k = "switch" -> v.k = "switch" /\ v.x + 1 \in DOMAIN T.m /\ Fits(ty, T.m[v.x + 1].v, v.v)
         [] OTHER -> v.k = T.k

\* ---- the pylon form: text "t", array "a", object "o" ----
Text(s) == [k |-> "t", v |-> s]
RECURSIVE Export(_, _, _)
Export(ty, t, v) ==
    LET T == ty[t] IN
    CASE T.k = "struct" -> [k |-> "o", v |-> [i \in DOMAIN T.m |-> [n |-> T.m[i].n, c |-> Export(ty, T.m[i].v, v.s[i])]]]
      [] T.k = "string" -> Text(v.s)
      [] T.k = "bool" -> Text(IF v.w[1] = 1 THEN "true" ELSE "false")
      [] T.k = "array" -> [k |-> "a", v |-> [i \in DOMAIN v.s |-> Export(ty, T.t, v.s[i])]]
      [] T.k = "enum" -> Text(T.m[Least({i \in DOMAIN T.m : T.m[i].v = v.x})].n)
      [] T.k = "owned" -> Export(ty, T.t, v.v)
      [] T.k = "switch" -> [k |-> "o", v |-> <<[n |-> T.m[v.x + 1].n, c |-> Export(ty, T.m[v.x + 1].v, v.v)]>>]

Numeral(s) == CHOOSE x \in -1000..1000 : ToString(x) = s
\* node laid over an object that has value d
RECURSIVE Import(_, _, _, _)
Import(ty, t, d, node) ==
    LET T == ty[t] IN
    CASE T.k = "struct" ->
            SeqVal([i \in DOMAIN T.m |->
                LET S == Named(node.v, T.m[i].n) IN
                IF S = {} THEN d.s[i] ELSE Import(ty, T.m[i].v, d.s[i], node.v[Least(S)].c)])
      [] T.k = "bool" -> IntVal(<<IF node.k = "t" /\ node.v = "true" THEN 1 ELSE 0, 0, 0, 0>>)
      [] T.k \in IntKinds -> IntVal(WordsOf(Numeral(node.v)))
      [] T.k \in FloatKinds -> FltVal(8 * Numeral(node.v))
      [] T.k = "string" -> IF node.k = "t" THEN [k |-> "str", s |-> node.v] ELSE d
      [] T.k = "fixed" -> SeqVal([i \in 1..T.n |-> Import(ty, T.t, d.s[i], node.v[i])])
      [] T.k = "array" ->
            SeqVal([i \in DOMAIN node.v |->
                Import(ty, T.t, IF i \in DOMAIN d.s THEN d.s[i] ELSE Def(ty, T.t, FALSE), node.v[i])])
      [] T.k = "enum" -> [k |-> "enum", x |-> T.m[Least(Named(T.m, node.v))].v]
      [] T.k = "eia" ->
            SeqVal([i \in DOMAIN ty[T.e].m |->
                LET S == Named(node.v, ty[T.e].m[i].n) IN
                IF S = {} THEN d.s[i] ELSE Import(ty, T.t, d.s[i], node.v[Least(S)].c)])
      [] T.k = "owned" -> [k |-> "owned", id |-> 0, v |-> Import(ty, T.t, Def(ty, T.t, FALSE), node)]
      [] T.k = "switch" ->
            LET i == Least(Named(T.m, node.v[1].n)) IN
            [k |-> "switch", x |-> i - 1,
             v |-> Import(ty, T.m[i].v, IF d.x = i - 1 THEN d.v ELSE Def(ty, T.m[i].v, TRUE), node.v[1].c)]
=============================================================================

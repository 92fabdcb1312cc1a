----------------------------- MODULE MCReflect -----------------------------
(* Every migration between every two of a set of small types, for every     *)
(* value of the first: an object is made, and loaded again and again into   *)
(* other versions of its type.                                              *)
EXTENDS ReflectSpec
T(k) == [k |-> k, s |-> "-", t |-> 0, n |-> 0, e |-> 0, m |-> <<>>]
P(n, v) == [n |-> n, v |-> v]
Types == <<
    T("u8"),                                                               \* 1
    T("s16"),                                                              \* 2
    T("float"),                                                            \* 3
    T("string"),                                                           \* 4
    [T("enum") EXCEPT !.n = 1, !.m = <<P("A", 0), P("B", 1)>>],            \* 5
    [T("enum") EXCEPT !.n = 4, !.m = <<P("B", 0), P("C", 1), P("A", 2)>>], \* 6
    [T("struct") EXCEPT !.m = <<P("x", 1), P("y", 5)>>],                   \* 7
    [T("struct") EXCEPT !.m = <<P("y", 6), P("x", 2), P("z", 4)>>],        \* 8
    [T("struct") EXCEPT !.m = <<P("x", 3)>>],                              \* 9
    [T("array") EXCEPT !.t = 7],                                           \* 10
    [T("array") EXCEPT !.t = 8],                                           \* 11
    [T("fixed") EXCEPT !.t = 2, !.n = 2],                                  \* 12
    [T("switch") EXCEPT !.m = <<P("p", 7), P("q", 9)>>],                   \* 13
    [T("switch") EXCEPT !.m = <<P("q", 9), P("p", 8), P("r", 7)>>],        \* 14
    [T("eia") EXCEPT !.t = 1, !.e = 5],                                    \* 15
    [T("eia") EXCEPT !.t = 2, !.e = 6],                                    \* 16
    [T("owned") EXCEPT !.t = 7],                                           \* 17
    [T("owned") EXCEPT !.t = 8],                                           \* 18
    [T("struct") EXCEPT !.m = <<P("a", 10), P("w", 13)>>],                 \* 19
    [T("struct") EXCEPT !.m = <<P("w", 14), P("a", 11), P("i", 16)>>],     \* 20
    [T("struct") EXCEPT !.m = <<P("o", 17), P("x", 1)>>],                  \* 21
    [T("struct") EXCEPT !.m = <<P("x", 12), P("o", 18)>>],                 \* 22
    T("bool"),                                                             \* 23
    T("s8") >>                                                             \* 24
All == DOMAIN Types
Words == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<200, 0, 0, 0>>, <<256, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<65408, 65535, 65535, 65535>>}
\* a few of the combinations of the members' values: each member takes all of its own (few) values
RECURSIVE Vals(_)
RECURSIVE Take(_, _)
Take(S, n) == IF S = {} \/ n = 0 THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN {x} \union Take(S \ {x}, n - 1)
Few(S) == Take(S, 3)
Vals(t) ==
    LET y == Types[t] IN
    CASE y.k \in IntKinds -> {IntVal(w) : w \in {w \in Words : Norm(w, y.k) = w}}
      [] y.k \in FloatKinds -> {FltVal(0), FltVal(12), FltVal(800)}
      [] y.k = "string" -> {[k |-> "str", s |-> x] : x \in {"", "u"}}
      [] y.k = "enum" -> {[k |-> "enum", x |-> y.m[i].v] : i \in DOMAIN y.m}
      [] y.k = "struct" ->
            IF Len(y.m) = 1 THEN {SeqVal(<<a>>) : a \in Vals(y.m[1].v)}
            ELSE IF Len(y.m) = 2 THEN {SeqVal(<<a, b>>) : a \in Few(Vals(y.m[1].v)), b \in Few(Vals(y.m[2].v))}
            ELSE {SeqVal(<<a, b, c>>) : a \in Few(Vals(y.m[1].v)), b \in Few(Vals(y.m[2].v)), c \in Few(Vals(y.m[3].v))}
      [] y.k = "array" -> {SeqVal(<<>>)} \union {SeqVal(<<x>>) : x \in Few(Vals(y.t))} \union {SeqVal(<<x, y1>>) : x, y1 \in Few(Vals(y.t))}
      [] y.k = "fixed" -> {SeqVal(<<a, b>>) : a \in Few(Vals(y.t)), b \in Few(Vals(y.t))}
      [] y.k = "switch" -> UNION {{[k |-> "switch", x |-> i - 1, v |-> x] : x \in Few(Vals(y.m[i].v))} : i \in DOMAIN y.m}
      [] y.k = "eia" -> {SeqVal(f) : f \in [DOMAIN Types[y.e].m -> Few(Vals(y.t))]}
      [] y.k = "owned" -> {[k |-> "owned", id |-> 1, v |-> x] : x \in Few(Vals(y.t))}
ValsOf == [t \in All |-> Vals(t)]
VARIABLES t0, v0, t, v
vars == <<t0, v0, t, v>>
Init == t0 \in All /\ v0 \in ValsOf[t0] /\ t = t0 /\ v = v0
\* a float that does not fit the integer it becomes is not specified
Next == /\ Savable(Types, t, v)
        /\ \E u \in All : t' = u /\ v' = Load(Types, t, v, u, TRUE)
        /\ UNCHANGED <<t0, v0>>
        /\ t = t0 /\ v = v0
Spec == Init /\ [][Next]_vars
Again == Load(Types, t, v, t0, TRUE)

TypeOk == Fits(Types, t, v)
\* saving and loading with the same type changes nothing
SameType == t = t0 => v = v0
\* everything that was saved of an undamaged type can be saved again unless a part is new or foreign
NothingAbsent == Savable(Types, t, v) => Savable(Types, t, Load(Types, t, v, t, TRUE))
\* a version with more members and wider numbers keeps everything: going there and back is lossless
Wider == {<<7, 8>>, <<10, 11>>, <<13, 14>>, <<15, 16>>, <<1, 2>>, <<5, 6>>, <<19, 20>>, <<17, 18>>, <<24, 2>>, <<23, 1>>, <<1, 3>>}
Lossless == <<t0, t>> \in Wider => Again = v0
\* members do not influence each other: what x becomes depends on x alone
Alone == (t0 \in {7, 8, 9} /\ t \in {7, 8, 9}) =>
            LET i == Least(Named(Types[t0].m, "x"))
                j == Least(Named(Types[t].m, "x"))
            IN v.s[j] = Load(Types, Types[t0].m[i].v, v0.s[i], Types[t].m[j].v, TRUE)
\* the objects a value owns are the same ones, in the order of the new members
Owners == \A i \in DOMAIN Ids(v) : Ids(v)[i] \in {Ids(v0)[j] : j \in DOMAIN Ids(v0)}
\* what cannot be converted looks like a new object
Foreign == (Types[t].k # Types[t0].k /\ ~(Types[t].k \in PrimKinds /\ Types[t0].k \in PrimKinds)) => v = Def(Types, t, TRUE)
\* pylon: exporting and importing is the identity
Pylon == (t0 = t /\ (Types[t].k \in {"string", "bool", "enum"})) =>
            Import(Types, t, Def(Types, t, TRUE), Export(Types, t, v)) = v
=============================================================================

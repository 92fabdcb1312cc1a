---------------------------- MODULE BuildGraphMC ----------------------------
(* Every dependency graph over four modules (each edge absent, private or    *)
(* public; modules with or without sources), with and without a shared       *)
(* container: what the stepwise propagation yields is what the closure of    *)
(* the graph says.                                                           *)
EXTENDS BuildGraph

VARIABLES edges, head, box, phase

Names == <<"a", "b", "c", "d">>
Pairs == {p \in (1..4) \X (1..4) : p[1] < p[2]}
Steps4(i) ==
    << <<"inc", "pub", "i">>, <<"inc", "priv", "p">>, <<"def", "pub", "D_" \o Names[i], "1">>, <<"dlp", Names[i]>> >>
    \o (IF i \in head THEN <<>> ELSE << <<"code", "yes", "x.cpp">> >>)
    \o (IF i = 1 THEN << <<"type", "exe">> >> ELSE <<>>)
    \o (IF i = 4 THEN << <<"ext", "pub", "z">> >> ELSE <<>>)
    \o Flat([j \in 1..4 |-> IF i < j /\ edges[<<i, j>>] # "no" THEN << <<"dep", edges[<<i, j>>], Names[j]>> >> ELSE <<>>])

MInit == /\ edges \in [Pairs -> {"no", "priv", "pub"}]
         /\ head \in SUBSET {2, 3}
         /\ box \in {0, 3}
         /\ phase = 0
         /\ repos = << [name |-> "R", kids |-> <<>>] >>
         /\ targets = [i \in 1..4 |-> [repo |-> "R", name |-> Names[i], path |-> "/" \o Names[i], steps |-> Steps4(i)]]
         /\ externs = << [repo |-> "R", name |-> "z"] >>
         /\ provs = << [repo |-> "R", ext |-> 1, name |-> "p", inst |-> TRUE, steps |-> << <<"inc", "pub", "/z/i">>, <<"lib", "-lz">> >>] >>
         /\ sel = <<1>> /\ g = NoProject

MNext == /\ phase < 3
         /\ phase' = phase + 1
         /\ UNCHANGED <<edges, head, box>>
         /\ \/ phase = 0 /\ (IF box = 0 THEN UNCHANGED vars ELSE Root(box, TRUE))
            \/ phase = 1 /\ Root(1, FALSE)
            \/ phase = 2 /\ Propagate
MSpec == MInit /\ [][MNext]_<<vars, edges, head, box, phase>>

E(i, j) == i < j /\ edges[<<i, j>>] # "no"
P(i, j) == i < j /\ edges[<<i, j>>] = "pub"
RECURSIVE Up(_), Vis(_)
Up(i) == {i} \cup UNION {Up(j) : j \in {j \in 1..4 : E(i, j)}}     \* everything below
Vis(i) == {i} \cup UNION {Vis(j) : j \in {j \in 1..4 : P(i, j)}}   \* what is seen through i
Sees1(i) == {i} \cup UNION {Vis(j) : j \in {j \in 1..4 : E(i, j)}} \* what i is compiled with
NodeAt(i) == g.nodes[First(NodeOf(g, "target", i))]
In == {i \in 1..4 : NodeOf(g, "target", i) # {}}
Boxed(i) == box # 0 /\ i \in Up(box)

(* a box whose members see modules outside cannot be; here everything below the box is inside *)
Once == \A m, n \in 1..Len(g.nodes) : m # n => <<g.nodes[m].kind, g.nodes[m].id>> # <<g.nodes[n].kind, g.nodes[n].id>>
AllIn == phase = 3 => In = Up(1) \cup (IF box = 0 THEN {} ELSE Up(box))
Includes == phase = 3 => \A i \in In :
    Range(NodeAt(i).pinc) = {"/" \o Names[i] \o "/p"} \cup {"/" \o Names[j] \o "/i" : j \in Sees1(i)}
                            \cup (IF 4 \in Sees1(i) THEN {"/z/i"} ELSE {})
Defines == phase = 3 => \A i \in In :
    {d[1] : d \in Range(NodeAt(i).pdef)} =
        {"D_" \o Names[j] : j \in Sees1(i)}
        \cup {Names[j] \o "_EXPORTING" : j \in {j \in Sees1(i) : Boxed(j) /\ Boxed(i)}}
        \cup {Names[j] \o "_IMPORTING" : j \in {j \in Sees1(i) : Boxed(j) /\ ~Boxed(i)}}
(* everything that is reached without entering a shared object is linked, and a shared object entered is linked itself *)
RECURSIVE Static(_)
Static(i) == {i} \cup UNION {Static(j) : j \in {j \in 1..4 : E(i, j) /\ (Boxed(i) <=> Boxed(j))}}
Links(i) == {LinkName(g, First(NodeOf(g, "target", j))) : j \in {j \in Static(i) \ {i} : NodeAt(j).type # "header"}}
            \cup (IF \E j \in Static(i) : \E k \in 1..4 : E(j, k) /\ Boxed(k) /\ ~Boxed(j) THEN {Names[box]} ELSE {})
            \cup (IF 4 \in Static(i) THEN {"-lz"} ELSE {})
Linked == phase = 3 => \A i \in In : Range(NodeAt(i).libs) = Links(i)
Ordered == phase = 3 => \A i \in In : LET s == NodeAt(i).libs IN
    /\ \A m, n \in 1..Len(s) : m # n => s[m] # s[n]
    /\ \A j, k \in Static(i) \ {i} : (E(j, k) /\ (Boxed(j) <=> Boxed(k)) /\ NodeAt(j).type # "header" /\ NodeAt(k).type # "header") =>
         \A m, n \in 1..Len(s) : (s[m] = LinkName(g, First(NodeOf(g, "target", j))) /\ s[n] = LinkName(g, First(NodeOf(g, "target", k)))) => n < m
Kinds == phase = 3 => \A i \in In : NodeAt(i).type =
    IF i = 1 THEN "exe" ELSE IF i = box THEN "dll" ELSE IF i \in head THEN "header"
    ELSE IF Boxed(i) THEN "object" ELSE "lib"
=============================================================================

---------------------------- MODULE MCMarkdown ----------------------------
(* Small documents, all of them: what is written down keeps its letters, stands for a tree, *)
(* and stands for one tree only.                                                            *)
EXTENDS MarkdownSpec
VARIABLE d

A == [k |-> "t", s |-> "a"]
C == [k |-> "cs", n |-> 1, pad |-> FALSE, ls |-> <<"*b">>]
B == [k |-> "br"]
Em(m, c) == [k |-> "em", m |-> m, c |-> c]
St(m, c) == [k |-> "st", m |-> m, c |-> c]
Link(c) == [k |-> "a", c |-> c, d |-> <<"x", ")">>]
Simple == {<<A>>, <<C>>, <<A, B, A>>, <<C, B, A>>}
Marked == UNION {{<<Em("*", c)>>, <<St("_", c)>>, <<Link(c)>>} : c \in Simple}
Text == Simple \cup Marked \cup {<<St("*", c)>> : c \in {<<Em("_", <<A>>)>>, <<Link(<<Em("_", <<A>>)>>)>>}}
        \cup {<<m[1], A>> : m \in {<<Link(<<A>>)>>, <<C>>}}

Para(c, bl, ind) == [k |-> "p", bl |-> bl, ind |-> ind, cont |-> 0, tr |-> 0, c |-> c]
Heading(n, c, bl) == [k |-> "h", bl |-> bl, ind |-> 0, n |-> n, tr |-> 0, c |-> c]
Pre(ls, bl) == [k |-> "pre", bl |-> bl, tab |-> FALSE, ls |-> ls]
Quote(b, bl, st) == [k |-> "q", bl |-> bl, ind |-> 0, st |-> st, b |-> b]
Item(b, bl) == [bl |-> bl, in |-> 0, sp |-> 1, b |-> b]
List(n, u, lo, it, bl) == [k |-> "l", bl |-> bl, n |-> n, u |-> u, lo |-> lo, it |-> it]

Leaf(bl, T) == {Para(c, bl, i) : c \in T, i \in {0, 2}}
               \cup {Heading(n, <<A>>, bl) : n \in {1, 2}} \cup {Heading(1, <<>>, bl)}
               \cup {Pre(ls, bl) : ls \in {<<"a">>, <<"a", "", " b">>}}
Start(T) == {Para(c, 0, 0) : c \in T} \cup {Heading(1, <<A>>, 0)}
Lists(P, bl) ==
    {List(n, u, FALSE, <<Item(<<p>>, 0)>>, bl) : n \in {-1}, u \in {"-", "+"}, p \in P}
    \cup {List(1, ".", FALSE, <<Item(<<p>>, 0), Item(<<q>>, 0)>>, bl) : p \in P, q \in P}
    \cup {List(-1, "-", TRUE, <<Item(<<p>>, 0), Item(<<q>>, 1)>>, bl) : p \in P, q \in P}
    \cup {List(-1, "-", TRUE, <<Item(<<p, [q EXCEPT !.bl = 1]>>, 0)>>, bl) : p \in P, q \in P}
    \cup {List(2, ")", FALSE, <<Item(<<>>, 0), Item(<<p>>, 0)>>, bl) : p \in P}
Small == {Para(<<A>>, 0, 0), Para(<<A, B, C>>, 0, 0), Heading(1, <<A>>, 0)}
Inner == Lists({Para(<<A>>, 0, 0)}, 0) \cup {Quote(<<Para(<<A>>, 0, 0)>>, 0, "> ")}
Block1(bl) ==
    Leaf(bl, Text) \cup {Quote(<<p>>, bl, "> ") : p \in Leaf(0, {<<A>>, <<A, B, A>>}) \cup Inner}
    \cup Lists(Small \cup {x \in Inner : x.k = "q" \/ ~x.lo}, bl)
Block2(bl) == Leaf(bl, {<<A>>, <<A, B, A>>}) \cup {Quote(<<Para(<<A>>, 0, 0)>>, bl, "> ")} \cup Lists(Small, bl)
\* which blocks can be told apart when they follow each other
Apart(x, y) ==
    CASE y.k = "pre" -> x.k \notin {"pre", "l"}
      [] y.k = "l" -> x.k # "l"
      [] y.k = "p" /\ x.k = "l" -> y.ind = 0
      [] OTHER -> TRUE
Doc(b) == [b |-> b, nl |-> "\n", fin |-> TRUE, tabs |-> FALSE]
Docs == {Doc(<<x>>) : x \in Block1(0)}
        \cup {Doc(<<xy[1], xy[2]>>) : xy \in {z \in Block1(0) \X Block1(1) : Apart(z[1], z[2])}}

ASSUME LET W == {<<Written(x), MeanDoc(x)>> : x \in Docs} IN Cardinality(W) = Cardinality({w[1] : w \in W})

Init == d \in Docs
Next == UNCHANGED d
Spec == Init /\ [][Next]_d
StandsForTree == Tree(MeanDoc(d))
Kept == Letters(Written(d)) = LettersOf(MeanDoc(d))
=============================================================================

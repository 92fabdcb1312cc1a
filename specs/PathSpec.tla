------------------------------ MODULE PathSpec ------------------------------
(* Paths denote locations. Texts are sequences of bytes; w tells Windows     *)
(* from POSIX rules. A location is a root (POSIX: "/" or none; Windows:      *)
(* "C:\", "C:" or none), a number of steps up, and the names below.          *)
EXTENDS Naturals, Integers, Sequences
Slash == 47
Back == 92
Dot == 46
Colon == 58
IsSep(w, c) == c = Slash \/ (w /\ c = Back)
SepOf(w) == IF w THEN Back ELSE Slash
Letter(c) == c \in 65..90 \/ c \in 97..122
HasDrive(w, p) == w /\ Len(p) >= 2 /\ Letter(p[1]) /\ p[2] = Colon
IsAbs(w, p) == IF w THEN Len(p) >= 3 /\ HasDrive(w, p) /\ IsSep(w, p[3]) ELSE Len(p) >= 1 /\ IsSep(w, p[1])
IsRel(w, p) == ~HasDrive(w, p) /\ Len(p) > 0 /\ ~IsSep(w, p[1])
EndsWithSep(w, p) == Len(p) > 0 /\ IsSep(w, p[Len(p)])
From(p, i) == SubSeq(p, i, Len(p))
\* the non-empty parts between separators
RECURSIVE FindSep(_, _, _)
FindSep(w, p, i) == IF i > Len(p) \/ IsSep(w, p[i]) THEN i ELSE FindSep(w, p, i + 1)
RECURSIVE FindName(_, _, _)
FindName(w, p, i) == IF i > Len(p) \/ ~IsSep(w, p[i]) THEN i ELSE FindName(w, p, i + 1)
RECURSIVE Parts(_, _)
Parts(w, p) == LET a == FindName(w, p, 1)  b == FindSep(w, p, a)
               IN IF a > Len(p) THEN <<>> ELSE <<SubSeq(p, a, b - 1)>> \o Parts(w, From(p, b))
Up == <<Dot, Dot>>
Here == <<Dot>>
\* --- locations
Nowhere == [root |-> <<>>, ups |-> 0, names |-> <<>>]
RootText(w, p) == IF ~w THEN IF IsAbs(w, p) THEN <<Slash>> ELSE <<>>
                  ELSE IF IsAbs(w, p) THEN <<p[1], Colon, Back>> ELSE IF HasDrive(w, p) THEN <<p[1], Colon>> ELSE <<>>
RootIsAbs(w, r) == r # <<>> /\ IsSep(w, r[Len(r)])
Step(w, l, part) ==
    IF part = Here THEN l
    ELSE IF part # Up THEN [l EXCEPT !.names = Append(@, part)]
    ELSE IF l.names # <<>> THEN [l EXCEPT !.names = SubSeq(@, 1, Len(@) - 1)]
    ELSE IF RootIsAbs(w, l.root) THEN l             \* there is nothing above the root
    ELSE [l EXCEPT !.ups = @ + 1]
RECURSIVE Steps(_, _, _)
Steps(w, l, q) == IF q = <<>> THEN l ELSE Steps(w, Step(w, l, Head(q)), Tail(q))
\* where p leads, seen from location l
Go(w, l, p) == LET r == RootText(w, p)
                   body == IF r = <<>> THEN p ELSE From(p, Len(r) + 1)
               IN Steps(w, IF r = <<>> THEN l ELSE [Nowhere EXCEPT !.root = r], Parts(w, body))
RECURSIVE GoAll(_, _, _)
GoAll(w, l, q) == IF q = <<>> THEN l ELSE GoAll(w, Go(w, l, Head(q)), Tail(q))
Loc(w, p) == Go(w, Nowhere, p)
\* --- printing a location
RECURSIVE Times(_)
Times(n) == IF n = 0 THEN <<>> ELSE <<Up>> \o Times(n - 1)
RECURSIVE Glue(_, _)
Glue(w, q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<SepOf(w)>> \o Glue(w, Tail(q))
Print(w, l, trail) ==
    LET rest == Glue(w, Times(l.ups) \o l.names)
        text == l.root \o rest
    IN IF text = <<>> THEN IF trail THEN <<Dot, SepOf(w)>> ELSE <<Dot>>
       ELSE IF trail /\ rest # <<>> THEN Append(text, SepOf(w)) ELSE text
Trailing(w, p) == p = <<>> \/ EndsWithSep(w, p)
Join(w, q) == Print(w, GoAll(w, Nowhere, q), Trailing(w, q[Len(q)]))
\* --- the way from a to d
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ a[1] # b[1] THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
Relative(w, a, d) ==
    LET la == Loc(w, a)  ld == Loc(w, d)
        qa == Times(la.ups) \o la.names  qd == Times(ld.ups) \o ld.names  m == Common(qa, qd)
    IN IF la.root # ld.root THEN Print(w, ld, EndsWithSep(w, d))
       ELSE LET q == Times(Len(qa) - m) \o From(qd, m + 1)
            IN Print(w, [Nowhere EXCEPT !.names = q], EndsWithSep(w, d))
RelativeKnown(w, a, d) ==          \* no step leads down again into an unknown folder
    LET la == Loc(w, a)  ld == Loc(w, d) IN la.root # ld.root \/ la.ups <= ld.ups
\* --- splitting
SplitFull(w, p) ==
    LET r == IF ~w /\ IsAbs(w, p) THEN 1 ELSE IF IsAbs(w, p) THEN 3 ELSE IF HasDrive(w, p) THEN 2
             ELSE IF Len(p) > 0 /\ IsSep(w, p[1]) THEN 1 ELSE 0
        q == Parts(w, From(p, r + 1))
    IN (IF r > 0 THEN <<SubSeq(p, 1, r)>> ELSE <<>>) \o q
       \o (IF q # <<>> /\ EndsWithSep(w, p) THEN << <<>> >> ELSE <<>>)
\* a path's last part, and what is before it
RECURSIVE LastSep(_, _, _)
LastSep(w, p, i) == IF i = 0 \/ IsSep(w, p[i]) THEN i ELSE LastSep(w, p, i - 1)
RECURSIVE LastName(_, _, _)
LastName(w, p, i) == IF i = 0 \/ ~IsSep(w, p[i]) THEN i ELSE LastName(w, p, i - 1)
SplitHead(w, p) == LET s == LastSep(w, p, Len(p))  n == LastName(w, p, s)
                   IN IF s = 0 THEN <<>>
                      ELSE IF n = 0 THEN SubSeq(p, 1, 1)                           \* "/", "//a"
                      ELSE IF n = 2 /\ HasDrive(w, p) THEN SubSeq(p, 1, 3) ELSE SubSeq(p, 1, n)
SplitTail(w, p) == From(p, LastSep(w, p, Len(p)) + 1)
RECURSIVE LastDot(_, _)
LastDot(p, i) == IF i = 0 \/ p[i] = Dot THEN i ELSE LastDot(p, i - 1)
Ext(w, p) == LET t == SplitTail(w, p)  d == LastDot(t, Len(t)) IN IF d <= 1 THEN <<>> ELSE From(t, d)
Convert(w, p) == [i \in 1..Len(p) |-> IF IsSep(~w, p[i]) THEN SepOf(w) ELSE p[i]]   \* into format w from the other one
=============================================================================

------------------------------- MODULE MCPath -------------------------------
(* The laws paths obey, for all short texts over a few bytes; a walk        *)
(* through locations, with the text of the current one kept beside it.      *)
EXTENDS PathSpec
CONSTANTS W, Alphabet, MaxLen, MaxNames
VARIABLES p, q, here, cwd, n
Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
\* on Windows a path with a separator first but no drive is neither absolute nor relative
Plain(t) == ~W \/ HasDrive(W, t) \/ t = <<>> \/ ~IsSep(W, t[1])
Ok(t) == Plain(t) /\ \A i \in 1..Len(t) : t[i] = Colon => (i = 2 /\ Letter(t[1]) /\ Len(t) > 2 /\ IsSep(W, t[3]))
Good == {t \in Texts : Ok(t)}
Init == p \in Good /\ q \in Good /\ here = Nowhere /\ cwd = <<Dot>> /\ n = 0
\* walk by p and then by q
Walk == /\ n < 2 /\ n' = n + 1 /\ LET s == IF n = 0 THEN p ELSE q
           IN here' = Go(W, here, s) /\ cwd' = Join(W, <<cwd, s>>)
        /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Walk]_<<p, q, here, cwd, n>>
SamePlace(a, b) == Loc(W, a) = Loc(W, b)
TextMatchesPlace == Loc(W, cwd) = here
Laws == n = 0 =>
        LET np == Join(W, <<p>>) IN
        /\ Join(W, <<np>>) = np /\ SamePlace(np, p)                    \* normalising is idempotent and stays
        /\ Join(W, <<p, q>>) = Join(W, <<np, q>>)
        /\ (q # <<>> => Join(W, <<p, q>>) = Join(W, <<Join(W, <<p, q>>)>>))
        /\ (IsAbs(W, q) => SamePlace(Join(W, <<p, q>>), q))
        /\ (IsAbs(W, p) = IsAbs(W, q) /\ RelativeKnown(W, p, q) => SamePlace(Join(W, <<p, Relative(W, p, q)>>), q))
        /\ SamePlace(Join(W, <<SplitHead(W, p), SplitTail(W, p)>>), p)
        /\ (p # <<>> => SamePlace(Join(W, SplitFull(W, p)), p))
=============================================================================

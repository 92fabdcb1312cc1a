---------------------------- MODULE MCCrowbar ----------------------------
(* Expressions are written by one tree only; the arithmetic of 32-bit numbers; and where the   *)
(* interpreter keeps its objects: a stack of them, on which a variable never loses its value   *)
(* to another one, although temporary objects become variables, arguments and results as they  *)
(* are, and only what somebody else owns is copied.                                            *)
EXTENDS CrowbarSpec

\* ---- grammar ----
Atom == [k |-> "n", s |-> "a", at |-> 0]
Ops == {"*", "+", "==", "&&"}
Over(L, R) == {[k |-> "b", op |-> o, l |-> l, r |-> r, at |-> 0] : o \in Ops, l \in L, r \in R}
Around(X) == {[k |-> "u", op |-> o, x |-> x, at |-> 0] : o \in {"-", "!"}, x \in X}
             \cup {[k |-> "g", x |-> x] : x \in X} \cup {[k |-> "p", o |-> x, s |-> "p", at |-> 0] : x \in X}
             \cup {[k |-> "c", f |-> x, a |-> <<>>, at |-> 0] : x \in X}
             \cup {[k |-> "c", f |-> Atom, a |-> <<x>>, at |-> 0] : x \in X}
             \cup {[k |-> "s", p |-> <<[x |-> x]>>, at |-> 0] : x \in X}
E0 == {Atom}
E1 == E0 \cup {x \in Over(E0, E0) \cup Around(E0) : Well(x)}
E2 == E1 \cup {x \in Over(E1, E1) \cup Around(E1) : Well(x)}
E3 == E2 \cup {x \in Over(Over({Atom}, {Atom}), Over({Atom}, {Atom})) \cup Over(E2, {Atom}) \cup Around(E1) : Well(x)}
Words(x) == LET t == XT(x, FALSE, "no") IN [i \in DOMAIN t |-> t[i].t[1]]
ASSUME PrintT(Cardinality(E3))
ASSUME Cardinality({Words(x) : x \in E3}) = Cardinality(E3)

\* ---- numbers ----
Halves == {0, 1, 2, 9, 10, 255, 256, 32767, 32768, 65535}
Nums == {<<h, l>> : h \in {0, 1, 10, 32768, 65535}, l \in Halves}
ASSUME \A x \in Nums, y \in Nums :
    /\ Minus(Plus(x, y), y) = x /\ Plus(x, y) = Plus(y, x) /\ Mul(x, y) = Mul(y, x)
    /\ Mul(x, Plus(y, <<0, 1>>)) = Plus(Mul(x, y), x)
    /\ y # <<0, 0>> => /\ Plus(Mul(Div(x, y), y), Mod(x, y)) = x /\ Less(Mod(x, y), y)
                       /\ (Less(x, y) => Div(x, y) = <<0, 0>>)
ASSUME \A x \in Nums : Number(Decimal(x)) = x
ASSUME /\ Mul(<<1, 1>>, <<1, 1>>) = <<2, 1>> /\ Decimal(<<65535, 65535>>) = "4294967295"
       /\ Div(<<65535, 65535>>, <<0, 10>>) = Number("429496729") /\ Mul(<<0, 65535>>, <<0, 65535>>) = <<65534, 1>>

\* ---- the object stack ----
VARIABLES slots,   \* values of the objects on the stack
          frames,  \* of the calls: [base: objects below, vars: name -> slot, abs: name -> value, mark: temporaries lie above]
          rv       \* what was just evaluated: [at: slot or 0, v: value], or nothing
vars == <<slots, frames, rv>>
Names == {"x", "y"}
Vals == {1, 2}
Nothing == [at |-> -1, v |-> 0]
Frame(base, vs, ab) == [base |-> base, vars |-> vs, abs |-> ab, mark |-> base + Cardinality(DOMAIN vs)]
Top == frames[Len(frames)]
Upto(n) == SubSeq(slots, 1, n)
Init == slots = <<>> /\ frames = <<Frame(0, <<>>, <<>>)>> /\ rv = Nothing
\* evaluation leaves a new object, a reference to a variable or a literal, which belongs to the program
Evaluate ==
    /\ rv = Nothing /\ Len(slots) < 6
    /\ \/ \E v \in Vals : slots' = Append(slots, v) /\ rv' = [at |-> Len(slots) + 1, v |-> v]
       \/ \E x \in DOMAIN Top.vars : slots' = slots /\ rv' = [at |-> Top.vars[x], v |-> Top.abs[x]]
       \/ \E v \in Vals : slots' = slots /\ rv' = [at |-> 0, v |-> v]
    /\ UNCHANGED frames
\* the object itself if it is temporary, a copy otherwise
Owned == IF rv.at > Top.mark /\ rv.at = Len(slots) THEN slots ELSE Append(slots, rv.v)
Put(x) ==
    /\ rv # Nothing
    /\ LET s == Owned  v == s[Len(s)] IN
       IF x \in DOMAIN Top.vars
       THEN /\ slots' = [SubSeq(s, 1, Top.mark) EXCEPT ![Top.vars[x]] = v]
            /\ frames' = [frames EXCEPT ![Len(frames)].abs[x] = rv.v]
       ELSE /\ slots' = Append(SubSeq(s, 1, Top.mark), v)
            /\ frames' = [frames EXCEPT ![Len(frames)] = [@ EXCEPT !.vars = (x :> Top.mark + 1) @@ @, !.abs = (x :> rv.v) @@ @, !.mark = @ + 1]]
    /\ rv' = Nothing
\* a call with one argument: its object becomes the parameter
Enter ==
    /\ rv # Nothing /\ Len(frames) < 3
    /\ slots' = Owned
    /\ frames' = Append(frames, [base |-> Len(Owned), vars |-> ("x" :> Len(Owned)), abs |-> ("x" :> rv.v), mark |-> Len(Owned)])
    /\ rv' = Nothing
\* the result goes to the bottom of the frame, where it is a temporary object of the caller
Return ==
    /\ rv # Nothing /\ Len(frames) > 1
    /\ slots' = Append(SubSeq(slots, 1, Top.base), rv.v)
    /\ LET s == Owned IN s[Len(s)] = rv.v
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
    /\ rv' = [at |-> Top.base + 1, v |-> rv.v]
Drop == rv # Nothing /\ rv' = Nothing /\ slots' = SubSeq(slots, 1, Top.mark) /\ UNCHANGED frames
Next == Evaluate \/ (\E x \in Names : Put(x)) \/ Enter \/ Return \/ Drop
Spec == Init /\ [][Next]_vars
\* every variable keeps its own object with its own value
Kept == \A i \in DOMAIN frames : \A x \in DOMAIN frames[i].vars :
            frames[i].vars[x] \in DOMAIN slots /\ slots[frames[i].vars[x]] = frames[i].abs[x]
Apart == \A i, j \in DOMAIN frames : \A x \in DOMAIN frames[i].vars, y \in DOMAIN frames[j].vars :
            (i # j \/ x # y) => frames[i].vars[x] # frames[j].vars[y]
Valid == rv = Nothing \/ rv.at = 0 \/ (rv.at \in DOMAIN slots /\ slots[rv.at] = rv.v)
=============================================================================

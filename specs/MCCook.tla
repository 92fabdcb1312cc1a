---- MODULE MCCook ----
EXTENDS CookSpec, TLC
CONSTANTS MaxTime
VARIABLES W, st, last     \* last: the cook counts and files when the previous session ended
mvars == <<W, st, last>>
Ids == 1..3
Recipes(j) == { << <<"v", 1>> >> }
    \cup { << <<"r", k>>, <<"v", 2>> >> : k \in Ids } \cup { << <<"d", 1>> >> }
    \cup { << <<"o", k>>, <<"d", 1>> >> : k \in { x \in Ids : x > j } }
    \cup { << <<"c", k>>, <<"r", k>> >> : k \in { x \in Ids : x > j } }
W0 == (<<"j", 1>> :> [m |-> 1, c |-> << <<"r", 2>>, <<"v", 2>> >>]) @@ (<<"j", 2>> :> [m |-> 1, c |-> << <<"o", 3>>, <<"d", 1>> >>])
      @@ (<<"j", 3>> :> [m |-> 1, c |-> << <<"r", 1>>, <<"v", 2>> >>])
Now == CHOOSE m \in 1..MaxTime : (\E f \in DOMAIN W : W[f].m = m) /\ \A f \in DOMAIN W : W[f].m <= m
MInit == W = W0 /\ st = Fresh(Ids) /\ last = <<>>
Same == UNCHANGED <<W, last>>
Edit == /\ ~st.on /\ Now < MaxTime /\ UNCHANGED <<st, last>>
        /\ \/ \E j \in Ids : \E c \in Recipes(j) : W' = [f \in DOMAIN W \cup { <<"j", j>> } |-> IF f = <<"j", j>> THEN [m |-> Now + 1, c |-> c] ELSE W[f]]
           \/ \E v \in 1..2 : W' = [f \in DOMAIN W \cup { <<"d", 1>> } |-> IF f = <<"d", 1>> THEN [m |-> Now + 1, c |-> << <<"v", v>> >>] ELSE W[f]]
           \/ \E f \in { <<"d", 1>>, <<"j", 2>> } \cap DOMAIN W : W[f].m < Now /\ W' = [g \in DOMAIN W \ {f} |-> W[g]]
MBegin == ~st.on /\ st' = Begin(st) /\ last' = <<st.cooks, W, DOMAIN st.J>> /\ UNCHANGED W
MCook == st.on /\ Same /\ \E j \in Ids, k \in 0..1 : j \notin st.chk /\ st' = CookJob(st, W, k, j, 0)
MDefer == st.on /\ st.def # {} /\ Same /\ st' \in Defer({st}, W)
MRoots == st.on /\ Same /\ \E q \in { <<>>, <<1>>, <<2, 3>> } : q # st.roots /\ st' = SetRoots(st, q)
MDrop == st.on /\ Same /\ st.slots[1] # 0 /\ st' = Release(st, 1)
MEnd == st.on /\ st.def = {} /\ st' = End(st) /\ Same
MNext == Edit \/ MBegin \/ MCook \/ MDefer \/ MRoots \/ MDrop \/ MEnd
MSpec == MInit /\ [][MNext]_mvars
InvUp == UpToDate(st, W)
InvComplete == Complete(st)
InvBalanced == Balanced(st)
InvClosed == Closed(st)
\* at most once in a session
Once == [][\A i \in Ids : st'.cooks[i] > st.cooks[i] => (st'.cooks[i] = st.cooks[i] + 1 /\ i \notin st.chk)]_mvars
\* a job that is there with a result and whose files, and those it used, are as they were is left alone
Lazy == [][(st.on /\ st'.on /\ W = W') => \A i \in Ids :
             (st'.cooks[i] > st.cooks[i] /\ i \in DOMAIN st.J /\ st.J[i].res) =>
                \E d \in Rng(st.J[i].deps) : IF d[1] = "o" THEN Value(W, d[2]) # d[3] ELSE Time(W, <<d[1], d[2]>>) # d[3]]_mvars
Small == TLCGet("level") <= 10
====

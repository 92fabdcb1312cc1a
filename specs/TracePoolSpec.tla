--------------------------- MODULE TracePoolSpec ---------------------------
EXTENDS PoolSpec, TraceBase
vars == <<S, H, B, l>>
TInit == TraceStart /\ PInit
Alive == Ev.live = Cardinality({i \in 1..Len(S') : S'[i] # 0})
TNext ==
    \/ IsEvent("reset") /\ Ev.live = 0 /\ S' = <<>> /\ H' = NoH /\ B' = <<>>
    \/ IsEvent("new") /\ New(Ev.x, Ev.v) /\ Ev.got = Ev.v /\ Ev.back = Ev.x /\ Alive
    \/ IsEvent("del") /\ Del(Ev.x) /\ Alive
    \/ IsEvent("clear") /\ Clear /\ Alive
    \/ IsEvent("set") /\ Ev.x + 1 \in Live /\ S' = [S EXCEPT ![Ev.x + 1] = Ev.v] /\ UNCHANGED <<H, B>> /\ Alive
    \/ IsEvent("get") /\ Ev.x + 1 \in Live /\ Ev.v = S[Ev.x + 1] /\ UNCHANGED <<S, H, B>> /\ Alive
    \/ IsEvent("iter") /\ Ev.x = Listing /\ Ev.v = Vals(Listing) /\ UNCHANGED <<S, H, B>> /\ Alive
    \/ IsEvent("assign") /\ Assign(Ev.h, Ev.x) /\ Alive
    \/ IsEvent("moveh") /\ MoveH(Ev.h, Ev.g) /\ Alive
    \/ IsEvent("hget") /\ Ev.x = H[Ev.h] /\ (Ev.x # -1 => Ev.v = S[Ev.x + 1]) /\ UNCHANGED <<S, H, B>>
    \/ IsEvent("bapp") /\ BApp(Ev.v) /\ Ev.n = Len(B') /\ Ev.at = Len(B)
    \/ IsEvent("blook") /\ Ev.same /\ Ev.n = Len(B) /\ UNCHANGED <<S, H, B>>
         /\ \A i \in 1..Len(Ev.i) : Ev.v[i] = B[Ev.i[i] + 1] /\ Ev.w[i] = B[Len(B) - Ev.i[i]]
TSpec == TInit /\ [][TNext]_vars
=============================================================================

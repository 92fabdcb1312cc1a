------------------------- MODULE TraceStringAlgebra -------------------------
EXTENDS StringAlgebra, TraceBase
vars == <<svars, l>>
Bool(x) == x # 0
TInit == TraceStart /\ StrInit
Seen == S' = Ev.s /\ H' = Ev.h         \* every register, after every operation
TNext ==
    \/ IsEvent("reset") /\ S' = [r \in Regs |-> <<>>] /\ H' = [k \in Hyb |-> <<>>] /\ own' = [k \in Hyb |-> FALSE]
    \/ IsEvent("set") /\ Assign(Ev.d, Ev.v) /\ Seen
    \/ IsEvent("copy") /\ Copy(Ev.d, Ev.a) /\ Seen
    \/ IsEvent("move") /\ Move(Ev.d, Ev.a) /\ Seen
    \/ IsEvent("part") /\ CopyPart(Ev.d, Ev.a, Ev.from, Ev.n) /\ Seen
    \/ IsEvent("right") /\ Put(Ev.d, Right(S[Ev.a], Ev.n)) /\ Seen
    \/ IsEvent("short") /\ Put(Ev.d, Shortened(S[Ev.a], Ev.n)) /\ Seen
    \/ IsEvent("concat") /\ Concat(Ev.d, Ev.a, Ev.b) /\ Seen
    \/ IsEvent("append") /\ Append1(Ev.d, Ev.a) /\ Seen
    \/ IsEvent("repeat") /\ Repeat(Ev.d, Ev.a, Ev.n) /\ Seen
    \/ IsEvent("resize") /\ Resize(Ev.d, Ev.n, 46) /\ Seen
    \/ IsEvent("clear") /\ Clear(Ev.d) /\ Seen
    \/ IsEvent("poke") /\ Poke(Ev.d, Ev.i, Ev.b) /\ Seen
    \/ IsEvent("derive") /\ (Ev.op = "revutf8" => WellFormed(S[Ev.a])) /\ Derive(Ev.op, Ev.d, Ev.a) /\ Seen
    \/ IsEvent("derive") /\ Ev.op = "revutf8" /\ RevBad(Ev.d, Ev.a, Ev.s[Ev.d]) /\ Seen
    \/ IsEvent("trim") /\ Trim(Ev.d, Ev.a, Ev.p, Ev.l, Ev.r) /\ Seen
    \/ IsEvent("join") /\ Join(Ev.d, Ev.sep, Ev.q) /\ Seen
    \/ IsEvent("split") /\ Ev.o = Split(S[Ev.a], Ev.b) /\ Keep
    \/ IsEvent("find") /\ Ev.o = First(S[Ev.a], Ev.from, LAMBDA x : x = Ev.b) /\ Keep
    \/ IsEvent("rfind") /\ Ev.o = Last(S[Ev.a], Ev.from, LAMBDA x : x = Ev.b) /\ Keep
    \/ IsEvent("findp") /\ Ev.o = First(S[Ev.a], Ev.from, LAMBDA x : Pred(Ev.p, x)) /\ Keep
    \/ IsEvent("rfindp") /\ Ev.o = Last(S[Ev.a], Ev.from, LAMBDA x : Pred(Ev.p, x)) /\ Keep
    \/ /\ IsEvent("cmp") /\ Keep
       /\ LET c == Cmp(S[Ev.a], S[Ev.b]) IN
          /\ Ev.o = <<c, IF c = 0 THEN 1 ELSE 0, IF c # 0 THEN 1 ELSE 0, IF c < 0 THEN 1 ELSE 0,
                      IF c <= 0 THEN 1 ELSE 0, IF c > 0 THEN 1 ELSE 0, IF c >= 0 THEN 1 ELSE 0>>
          /\ Ev.starts = Starts(S[Ev.a], S[Ev.b]) /\ Ev.ends = Ends(S[Ev.a], S[Ev.b])
          /\ Ev.empty = (S[Ev.a] = <<>>) /\ Ev.nul = Ends(S[Ev.a], <<0>>)
    \/ IsEvent("view") /\ Ev.o = Sub(S[Ev.a], Ev.x, Len(S[Ev.a]) - Ev.x - Ev.y) /\ Ev.in /\ Keep
    \/ IsEvent("at") /\ Ev.o = S[Ev.a][Ev.i + 1] /\ Ev.b = S[Ev.a][Len(S[Ev.a]) - Ev.i]
                     /\ {Ev.l, Ev.m, Ev.n} = {S[Ev.a][Len(S[Ev.a])]} /\ Keep
    \/ IsEvent("hset") /\ HSet(Ev.k, Ev.v, FALSE) /\ Seen
    \/ IsEvent("htake") /\ HTake(Ev.k, Ev.a) /\ Seen
    \/ IsEvent("hcopy") /\ HCopy(Ev.k, Ev.j) /\ Seen
    \/ IsEvent("hmove") /\ HMove(Ev.k, Ev.j) /\ Seen
    \/ IsEvent("hgive") /\ HGive(Ev.d, Ev.k) /\ Seen
TSpec == TInit /\ [][TNext]_vars
=============================================================================

------------------------------ MODULE SyncSpec ------------------------------
(* What the threads library promises, for every schedule: each operation    *)
(* takes effect at one instant between its call and its return, an          *)
(* operation that has to wait takes effect only when its condition holds,   *)
(* and returns what that instant gives.                                     *)
(*                                                                          *)
(* The state is the SET of all configurations that explain the calls and    *)
(* returns observed so far; a history is explained while the set is not     *)
(* empty.                                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS NT,          \* threads 0..NT-1; thread 0 creates the others
          NM, NonRec,  \* mutexes 1..NM; those that are not recursive
          NS, NR, NE, NC, NA, NL

VARIABLE C             \* set of configurations

Threads == 0..(NT - 1)
Idle == [st |-> "idle", op |-> "", k |-> 0, a |-> 0, b |-> 0, r |-> <<0>>]

InitConf == [
    mo |-> [m \in 1..NM |-> -1], md |-> [m \in 1..NM |-> 0], \* owner, depth
    dat |-> [m \in 1..NM |-> 0],                             \* data the mutex protects
    sem |-> [s \in 1..NS |-> 0],
    rx |-> [x \in 1..NR |-> -1], rs |-> [x \in 1..NR |-> {}], rdat |-> [x \in 1..NR |-> 0],
    ev |-> [e \in 1..NE |-> FALSE],
    cv |-> [c \in 1..NC |-> 0],                              \* counter watched through a condition variable
    at |-> [x \in 1..NA |-> 0],
    tl |-> [t \in Threads |-> [x \in 1..NL |-> <<0>>]],      \* thread-local values, scopes as a stack
    run |-> [t \in Threads |-> IF t = 0 THEN "live" ELSE "none"], \* none, live, over (not joined)
    tid |-> [t \in Threads |-> -1],
    th |-> [t \in Threads |-> Idle]]

Ret(c, t, r) == [c EXCEPT !.th[t].st = "done", !.th[t].r = r]
CanLock(c, t, m) == c.mo[m] = -1 \/ (c.mo[m] = t /\ m \notin NonRec)
Top(s) == s[Len(s)]
Pow(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE IF n = 3 THEN 8 ELSE IF n = 4 THEN 16 ELSE IF n = 5 THEN 32 ELSE IF n = 6 THEN 64 ELSE 128
Bit(x, n) == (x \div Pow(n)) % 2
Sum8(f(_)) == f(0) + 2 * f(1) + 4 * f(2) + 8 * f(3) + 16 * f(4) + 32 * f(5) + 64 * f(6) + 128 * f(7)
AndB(x, y) == LET f(n) == Bit(x, n) * Bit(y, n) IN Sum8(f)
OrB(x, y) == LET f(n) == IF Bit(x, n) + Bit(y, n) > 0 THEN 1 ELSE 0 IN Sum8(f)

(* The configurations after the waiting operation of thread t took (one part of) its effect. *)
Step(c, t) ==
  LET p == c.th[t]
      k == p.k
      a == p.a
      b == p.b
      v == IF p.op \in {"load", "store", "xchg", "add", "sub", "and", "or", "cas", "casx", "casw", "pub", "subs"}
             THEN c.at[k] ELSE 0
      Set(n, r) == {[Ret(c, t, r) EXCEPT !.at[k] = n]}
      Ok == <<0>>
  IN CASE p.op = "lock" -> IF CanLock(c, t, k) THEN {[Ret(c, t, Ok) EXCEPT !.mo[k] = t, !.md[k] = @ + 1]} ELSE {}
       [] p.op = "trylock" -> IF CanLock(c, t, k) THEN {[Ret(c, t, <<1>>) EXCEPT !.mo[k] = t, !.md[k] = @ + 1]}
                              ELSE {Ret(c, t, <<0>>)}
       [] p.op = "unlock" -> {[Ret(c, t, Ok) EXCEPT !.md[k] = @ - 1, !.mo[k] = IF c.md[k] = 1 THEN -1 ELSE @]}
       [] p.op = "held" -> {[Ret(c, t, <<c.dat[k] + 1>>) EXCEPT !.dat[k] = @ + 1]}   \* caller holds the mutex
       \* an increment of the data under the mutex, which others find locked meanwhile
       [] p.op = "inc" -> IF CanLock(c, t, k) THEN {[c EXCEPT !.mo[k] = t, !.md[k] = @ + 1, !.th[t].op = "inc2"]} ELSE {}
       [] p.op = "inc2" -> {[Ret(c, t, <<c.dat[k] + 1>>) EXCEPT !.dat[k] = @ + 1, !.md[k] = @ - 1,
                                                                !.mo[k] = IF c.md[k] = 1 THEN -1 ELSE @]}
       [] p.op = "swait" -> IF c.sem[k] > 0 THEN {[Ret(c, t, Ok) EXCEPT !.sem[k] = @ - 1]} ELSE {}
       [] p.op = "ssignal" -> IF a = 0 THEN {Ret(c, t, Ok)}
                              ELSE {[c EXCEPT !.sem[k] = @ + 1, !.th[t].a = a - 1]}
       [] p.op = "rlock" -> IF c.rx[k] = -1 THEN {[Ret(c, t, Ok) EXCEPT !.rs[k] = @ \cup {t}]} ELSE {}
       [] p.op = "runlock" -> {[Ret(c, t, Ok) EXCEPT !.rs[k] = @ \ {t}]}
       [] p.op = "rboth" -> IF c.rx[k] = -1 THEN {Ret(c, t, <<1>>)} ELSE {}
       [] p.op = "rget" -> IF c.rx[k] = -1 THEN {Ret(c, t, <<c.rdat[k]>>)} ELSE {}
       [] p.op = "rheld" -> {Ret(c, t, <<c.rdat[k]>>)}                               \* caller holds it shared
       [] p.op = "xlock" -> IF c.rx[k] = -1 /\ c.rs[k] = {} THEN {[Ret(c, t, Ok) EXCEPT !.rx[k] = t]} ELSE {}
       [] p.op = "xunlock" -> {[Ret(c, t, Ok) EXCEPT !.rx[k] = -1]}
       [] p.op = "xheld" -> {[Ret(c, t, <<c.rdat[k] + 1>>) EXCEPT !.rdat[k] = @ + 1]}
       [] p.op = "xinc" -> IF c.rx[k] = -1 /\ c.rs[k] = {} THEN {[Ret(c, t, <<c.rdat[k] + 1>>) EXCEPT !.rdat[k] = @ + 1]} ELSE {}
       [] p.op = "eset" -> {[Ret(c, t, Ok) EXCEPT !.ev[k] = TRUE]}
       [] p.op = "ereset" -> {[Ret(c, t, Ok) EXCEPT !.ev[k] = FALSE]}
       [] p.op = "ewait" -> IF c.ev[k] THEN {Ret(c, t, Ok)} ELSE {}
       [] p.op = "give" -> {[Ret(c, t, Ok) EXCEPT !.cv[k] = @ + 1]}
       [] p.op = "take" -> IF c.cv[k] > 0 THEN {[Ret(c, t, Ok) EXCEPT !.cv[k] = @ - 1]} ELSE {}
       [] p.op = "await" -> IF c.cv[k] >= a THEN {Ret(c, t, Ok)} ELSE {}
       [] p.op \in {"load", "subs"} -> {Ret(c, t, <<v>>)}
       [] p.op \in {"store", "pub"} -> Set(a, Ok)
       [] p.op = "xchg" -> Set(a, <<v>>)
       [] p.op = "add" -> Set((v + a) % 256, <<v>>)
       [] p.op = "sub" -> Set((v - a) % 256, <<v>>)
       [] p.op = "and" -> Set(AndB(v, a), <<v>>)
       [] p.op = "or" -> Set(OrB(v, a), <<v>>)
       [] p.op = "cas" -> Set(IF v = a THEN b ELSE v, <<v>>)
       [] p.op = "casx" -> Set(IF v = a THEN b ELSE v, <<IF v = a THEN 1 ELSE 0, v>>)
       \* the weak form may fail though the value is the expected one
       [] p.op = "casw" -> Set(IF v = a THEN b ELSE v, <<IF v = a THEN 1 ELSE 0, v>>) \cup {Ret(c, t, <<0, v>>)}
       [] p.op = "tset" -> {[Ret(c, t, Ok) EXCEPT !.tl[t][k][Len(c.tl[t][k])] = a]}
       [] p.op = "tget" -> {Ret(c, t, <<Top(c.tl[t][k])>>)}
       [] p.op = "tpush" -> {[Ret(c, t, Ok) EXCEPT !.tl[t][k] = Append(@, a)]}
       [] p.op = "tpop" -> {[Ret(c, t, Ok) EXCEPT !.tl[t][k] = SubSeq(@, 1, Len(@) - 1)]}
       \* a: the mark with which the harness stands for this identifier
       [] p.op = "tid" -> IF c.tid[t] \in {-1, a} /\ \A u \in Threads \ {t} : c.run[u] # "live" \/ c.tid[u] # a
                          THEN {[Ret(c, t, Ok) EXCEPT !.tid[t] = a]} ELSE {}
       [] p.op = "spawn" -> IF c.run[k] = "none"
                            THEN {[Ret(c, t, Ok) EXCEPT !.run[k] = "live", !.tid[k] = -1,
                                                        !.tl[k] = [x \in 1..NL |-> <<0>>]]} ELSE {}
       \* joined only when the thread is over; its callable has been destroyed by then (none left alive)
       [] p.op = "join" -> IF c.run[k] = "over" THEN {[Ret(c, t, <<0>>) EXCEPT !.run[k] = "none"]} ELSE {}
       [] p.op = "valid" -> {Ret(c, t, <<IF c.run[k] = "none" THEN 0 ELSE 1>>)}
       [] p.op = "end" -> IF \A x \in 1..NL : Len(c.tl[t][x]) = 1 THEN {[Ret(c, t, Ok) EXCEPT !.run[t] = "over"]} ELSE {}
       \* measured times, in ms: a is what was asked, b the longest of several measured, at least once long enough
       [] p.op = "time" -> IF b >= a - 1 /\ b <= a + 20000 THEN {Ret(c, t, Ok)} ELSE {}

Waiting(c) == {t \in Threads : c.th[t].st = "call"}
Succ(c) == UNION {Step(c, t) : t \in Waiting(c)}

RECURSIVE Close(_, _)
Close(done, new) ==
  IF new = {} THEN done
  ELSE LET all == done \cup new
       IN Close(all, UNION {Succ(c) : c \in new} \ all)

SyncInit == C = {InitConf}

\* A thread can act as soon as its creator's call took effect, which may be before that call returned.
Call(t, op, k, a, b) ==
    LET D == IF \A d \in C : d.run[t] = "live" THEN C ELSE Close({}, C)
    IN C' = {[c EXCEPT !.th[t] = [st |-> "call", op |-> op, k |-> k, a |-> a, b |-> b, r |-> <<0>>]] :
               c \in {d \in D : d.th[t].st = "idle" /\ d.run[t] = "live"}}

Return(t, r) ==
    C' = {[c EXCEPT !.th[t] = Idle] : c \in {d \in Close({}, C) : d.th[t].st = "done" /\ d.th[t].r = r}}

Explained == C # {}
=============================================================================

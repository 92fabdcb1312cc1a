------------------------------- MODULE MCSync -------------------------------
(* The algorithms of the threads library, one shared access at a time, under *)
(* every schedule and with spurious wake-ups: the manual-reset event over a  *)
(* mutex and a condition variable, the lazily initialised mutex (checked     *)
(* twice under a spin lock), the spin lock. Every call and return is         *)
(* observed by SyncSpec: no observable history may go unexplained, and no    *)
(* thread may wait for ever.                                                 *)
EXTENDS SyncSpec, TLC

CONSTANTS Wake,      \* "all" or "one": whom an event's signal wakes
          SecondLook \* the lazy mutex looks at its flag again under the spin lock

VARIABLES prog, pc, tmp,
          em, ew, es,          \* event: mutex owner, threads asleep on the condition variable, state
          flag, spin, inner,   \* lazy mutex: initialised, spin lock, owner of the mutex inside
          word,                \* spin lock
          data                 \* <<protected by lazy mutex, protected by spin lock>>

mvars == <<C, prog, pc, tmp, em, ew, es, flag, spin, inner, word, data>>

Progs == {
    <<<<"eset">>, <<"ewait">>, <<"ewait">>>>,
    <<<<"eset", "ereset", "eset">>, <<"ewait", "ewait">>, <<"ewait">>>>,
    <<<<"inc">>, <<"inc">>, <<"inc">>>>,
    <<<<"inc", "inc">>, <<"inc", "inc">>, <<>>>>,
    <<<<"sinc">>, <<"sinc">>, <<"sinc">>>>,
    <<<<"inc", "eset">>, <<"ewait", "inc">>, <<"sinc">>>> }

MInit ==
    /\ C = {[InitConf EXCEPT !.run = [t \in Threads |-> "live"]]}
    /\ prog \in {[t \in Threads |-> p[t + 1]] : p \in Progs}
    /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> 0]
    /\ em = -1 /\ ew = {} /\ es = FALSE
    /\ flag = FALSE /\ spin = FALSE /\ inner = -1 /\ word = 0 /\ data = <<0, 0>>

Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Ends(t, r) == Return(t, r) /\ Go(t, "idle") /\ prog' = [prog EXCEPT ![t] = Tail(@)]
Quiet == UNCHANGED <<C, prog>>

Begin(t) ==
    /\ pc[t] = "idle" /\ prog[t] # <<>>
    /\ LET op == Head(prog[t])
       IN /\ Call(t, IF op = "sinc" THEN "inc" ELSE op, IF op = "sinc" THEN 2 ELSE 1, 0, 0)
          /\ Go(t, op)
    /\ UNCHANGED <<prog, tmp, em, ew, es, flag, spin, inner, word, data>>

\* --- event
ELock(t) == /\ pc[t] \in {"eset", "ereset", "ewait"} /\ em = -1 /\ em' = t
            /\ Go(t, CASE pc[t] = "eset" -> "e1" [] pc[t] = "ereset" -> "e2" [] OTHER -> "e3")
            /\ Quiet /\ UNCHANGED <<tmp, ew, es, flag, spin, inner, word, data>>
EOn(t) == /\ pc[t] = "e1" /\ es' = TRUE /\ Go(t, "e4")
          /\ Quiet /\ UNCHANGED <<tmp, em, ew, flag, spin, inner, word, data>>
EWake(t) == /\ pc[t] = "e4"
            /\ IF Wake = "all" THEN ew' = {} ELSE \/ ew = {} /\ ew' = {}
                                                 \/ \E u \in ew : ew' = ew \ {u}
            /\ Go(t, "e5") /\ Quiet /\ UNCHANGED <<tmp, em, es, flag, spin, inner, word, data>>
EOff(t) == /\ pc[t] = "e2" /\ es' = FALSE /\ Go(t, "e5")
           /\ Quiet /\ UNCHANGED <<tmp, em, ew, flag, spin, inner, word, data>>
EUnlock(t) == /\ pc[t] = "e5" /\ em' = -1 /\ Go(t, "e6")
              /\ Quiet /\ UNCHANGED <<tmp, ew, es, flag, spin, inner, word, data>>
EEnd(t) == pc[t] = "e6" /\ Ends(t, <<0>>) /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, word, data>>
EWait(t) == /\ pc[t] = "e3"
            /\ IF es THEN Go(t, "e5") /\ UNCHANGED <<em, ew>>
                     ELSE Go(t, "e7") /\ em' = -1 /\ ew' = ew \cup {t}
            /\ Quiet /\ UNCHANGED <<tmp, es, flag, spin, inner, word, data>>
EAgain(t) == /\ pc[t] = "e7" /\ t \notin ew /\ em = -1 /\ em' = t /\ Go(t, "e3")
             /\ Quiet /\ UNCHANGED <<tmp, ew, es, flag, spin, inner, word, data>>
Spurious(t) == /\ t \in ew /\ ew' = ew \ {t}
               /\ UNCHANGED <<C, prog, pc, tmp, em, es, flag, spin, inner, word, data>>

\* --- lazily initialised mutex
LLook(t) == /\ pc[t] = "inc" /\ Go(t, IF flag THEN "l4" ELSE "l1")
            /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, word, data>>
LSpin(t) == /\ pc[t] = "l1" /\ ~spin /\ spin' = TRUE /\ Go(t, IF SecondLook /\ flag THEN "l3" ELSE "l2")
            /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, inner, word, data>>
LMake(t) == /\ pc[t] = "l2" /\ inner' = -1 /\ Go(t, "l2b")
            /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, word, data>>
LFlag(t) == /\ pc[t] = "l2b" /\ flag' = TRUE /\ Go(t, "l3")
            /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, spin, inner, word, data>>
LUnspin(t) == /\ pc[t] = "l3" /\ spin' = FALSE /\ Go(t, "l4")
              /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, inner, word, data>>
LLock(t) == /\ pc[t] = "l4" /\ inner = -1 /\ inner' = t /\ Go(t, "l5")
            /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, word, data>>
LRead(t) == /\ pc[t] = "l5" /\ tmp' = [tmp EXCEPT ![t] = data[1]] /\ Go(t, "l6")
            /\ Quiet /\ UNCHANGED <<em, ew, es, flag, spin, inner, word, data>>
LWrite(t) == /\ pc[t] = "l6" /\ data' = [data EXCEPT ![1] = tmp[t] + 1] /\ Go(t, "l7")
             /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, word>>
LUnlock(t) == /\ pc[t] = "l7" /\ inner' = -1 /\ Go(t, "l8")
              /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, word, data>>
LEnd(t) == pc[t] = "l8" /\ Ends(t, <<tmp[t] + 1>>) /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, word, data>>

\* --- spin lock
SLock(t) == /\ pc[t] = "sinc" /\ word = 0 /\ word' = 1 /\ Go(t, "s1")
            /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, data>>
SRead(t) == /\ pc[t] = "s1" /\ tmp' = [tmp EXCEPT ![t] = data[2]] /\ Go(t, "s2")
            /\ Quiet /\ UNCHANGED <<em, ew, es, flag, spin, inner, word, data>>
SWrite(t) == /\ pc[t] = "s2" /\ data' = [data EXCEPT ![2] = tmp[t] + 1] /\ Go(t, "s3")
             /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, word>>
SUnlock(t) == /\ pc[t] = "s3" /\ word' = 0 /\ Go(t, "l8")
              /\ Quiet /\ UNCHANGED <<tmp, em, ew, es, flag, spin, inner, data>>

Done == (\A t \in Threads : pc[t] = "idle" /\ prog[t] = <<>>) /\ UNCHANGED mvars
Works == \E t \in Threads :
    \/ Begin(t) \/ ELock(t) \/ EOn(t) \/ EWake(t) \/ EOff(t) \/ EUnlock(t) \/ EEnd(t) \/ EWait(t) \/ EAgain(t)
    \/ LLook(t) \/ LSpin(t) \/ LMake(t) \/ LFlag(t) \/ LUnspin(t) \/ LLock(t) \/ LRead(t) \/ LWrite(t) \/ LUnlock(t) \/ LEnd(t)
    \/ SLock(t) \/ SRead(t) \/ SWrite(t) \/ SUnlock(t)
MNext == Works \/ (\E t \in Threads : Spurious(t)) \/ Done
\* nobody sleeps for ever: when only a spurious wake-up could go on, everything is finished
NoLostWakeup == ~ENABLED Works => \A t \in Threads : prog[t] = <<>>
MSpec == MInit /\ [][MNext]_mvars
=============================================================================

----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded events of one     *)
(* harness run are read from the file named by the environment variable     *)
(* TRACE; `l` is the position of the next event to explain.                 *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

TraceStart == l = 1
Ev == Trace[l]
IsEvent(e) == /\ l <= Len(Trace)
              /\ Trace[l].e = e
              /\ l' = l + 1

(* one state per consumed event, plus the initial state *)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

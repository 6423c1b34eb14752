----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share.  The file named by the environment *)
(* variable TRACE has one recorded scenario per line:                      *)
(*    {"id": .., "cfg": [..], "ev": [{"op": .., "st": "ok", ..}, ..]}      *)
(* Every scenario is an initial state of its own.  Each event has to be a  *)
(* step that the specification allows; a scenario whose next event isn't   *)
(* one is a deadlock, which TLC reports with its (sc, l).  Events with     *)
(* st = "panic" or "crash" are never steps.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES sc,   \* the scenario
          l     \* its next event

Scen == ndJsonDeserialize(IOEnv.TRACE)

Ev == Scen[sc].ev[l]
Cfg == Scen[sc].cfg

TBInit == sc \in 1..Len(Scen) /\ l = 1

Is(o) == /\ l <= Len(Scen[sc].ev)
         /\ Ev.st = "ok"
         /\ Ev.op = o
         /\ l' = l + 1
         /\ sc' = sc

Finished == l > Len(Scen[sc].ev)

(* What TLC prints of the states that lead to a rejected event.  With every sample of a long *)
(* stream in it, printing would take longer than the check may.                              *)
Where == [sc |-> sc, l |-> l]
=============================================================================

------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Two objects in the same state answer alike (C25, C26): after the copy   *)
(* is made, whatever is done to both, both show the same.  x and y are     *)
(* what the original and the copy showed.                                  *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLE n     \* operations compared since the copy was made

TInit == TBInit /\ n = 0

Same == Ev.x = Ev.y

TNext ==
  \/ Is("reload") /\ n' = 0
  \/ /\ l <= Len(Scen[sc].ev) /\ Ev.st = "ok" /\ Ev.op # "reload"
     /\ Same /\ l' = l + 1 /\ sc' = sc /\ n' = n + 1
  \/ Finished /\ UNCHANGED <<sc, l, n>>

TSpec == TInit /\ [][TNext]_<<sc, l, n>>
=============================================================================

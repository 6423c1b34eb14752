---------------------------- MODULE DamageTrace ----------------------------
(***************************************************************************)
(* C09: what may happen with a damaged adhoc file.  Either it isn't loaded *)
(* and nothing else happens, or there is a codec that has a channel and a  *)
(* level of at most 10, and every call on it returns.  A strict prefix of  *)
(* a saved file isn't loaded.                                              *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES file,   \* "none", "whole", "prefix", "other"
          ch      \* channels of the codec, 0 if there is none

TInit == TBInit /\ file = "none" /\ ch = 0

TNext ==
  \/ Is("bytes") /\ file' = Ev.what /\ ch' = 0
  \/ /\ Is("load")
     /\ file = "prefix" => Ev.ok = 0
     /\ file = "whole" => Ev.ok = 1
     /\ Ev.ok = 1 => Ev.ch > 0 /\ Ev.lvl \in 0..10
     /\ ch' = IF Ev.ok = 1 THEN Ev.ch ELSE 0
     /\ UNCHANGED file
  \/ Is("dec") /\ ch > 0 /\ Ev.ret \in 0..Ev.cap /\ Ev.ret % ch = 0 /\ UNCHANGED <<file, ch>>
  \/ Is("drain") /\ ch > 0 /\ UNCHANGED <<file, ch>>
  \/ Is("seek") /\ ch > 0 /\ UNCHANGED <<file, ch>>
  \/ Is("init") /\ ch > 0 /\ UNCHANGED <<file, ch>>
  \/ Is("cnt") /\ ch > 0 /\ UNCHANGED <<file, ch>>
  \/ Is("save") /\ ch > 0 /\ Ev.ok = 1 /\ UNCHANGED <<file, ch>>
  \/ Finished /\ UNCHANGED <<sc, l, file, ch>>

TSpec == TInit /\ [][TNext]_<<sc, l, file, ch>>
=============================================================================

------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the tool.  A scenario is a sequence of                 *)
(*   run     the command line: the level, the inputs                       *)
(*   out     a file that appeared or changed in the output directory       *)
(*   end     nothing else has changed, as `others` tells                   *)
(***************************************************************************)
EXTENDS TraceBase, CliTool

VARIABLES wanted,  \* the inputs that have to be converted and haven't been found yet
          lvl

allvars == <<sc, l, wanted, lvl>>

TInit == TBInit /\ wanted = {} /\ lvl = 0

Run == /\ Is("run")
       /\ wanted = {}
       /\ wanted' = IF Ev.dir = 0 THEN {}      \* there is no such output directory
                    ELSE {Ev.inputs[k] : k \in {k \in DOMAIN Ev.inputs : Convertible(Ev.inputs[k])}}
       /\ lvl' = Level(Ev.c)

Out == /\ Is("out")
       /\ \E i \in wanted : /\ OutName(i) = Ev.name
                            /\ Converted(i, Ev, lvl)
                            /\ wanted' = wanted \ {i}
       /\ UNCHANGED lvl

End == /\ Is("end")
       /\ wanted = {} /\ Ev.others = 0
       /\ UNCHANGED <<wanted, lvl>>

TNext == Run \/ Out \/ End \/ (Finished /\ UNCHANGED allvars)

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

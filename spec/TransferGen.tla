---------------------------- MODULE TransferGen ----------------------------
(***************************************************************************)
(* Scripts for writers and readers: the answers to consecutive calls.      *)
(*   a  all      1, 3  at most that many bytes     i  interrupted          *)
(*   f  failed   z     nothing is taken                                    *)
(* The script starts after `skip` calls that got "a", and when it's over   *)
(* it either starts again (then it has to make progress) or "a" follows.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Depth
VARIABLES what, skip, script, done

Whats == {"asave", "wsave", "aload", "wload"}
Init == /\ what \in Whats
        /\ skip \in {0, 1, 2, 5, 13, 25}
        /\ script = <<>> /\ done = FALSE

Answers == IF what \in {"asave", "wsave"} THEN {"a", "1", "3", "i", "f", "z"} ELSE {"a", "1", "3", "f"}
Over(s) == Len(s) > 0 /\ s[Len(s)] \in {"f", "z"}

More == /\ ~done /\ Len(script) < Depth /\ ~Over(script)
        /\ \E x \in Answers : script' = Append(script, x)
        /\ UNCHANGED <<what, skip, done>>

RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE " " \o s[1] \o Text(Tail(s))

Stop == /\ ~done /\ Len(script) > 0 /\ done' = TRUE
        /\ \E again \in {"once", "again"} :
             /\ (again = "again" => \E i \in DOMAIN script : script[i] # "i")
             /\ PrintT("S|" \o what \o " " \o ToString(skip) \o " " \o again \o Text(script))
        /\ UNCHANGED <<what, skip, script>>

Next == More \/ Stop
Spec == Init /\ [][Next]_<<what, skip, script, done>>
=============================================================================

---------------------------- MODULE TransferImpl ----------------------------
(***************************************************************************)
(* The design: every part of the file goes through a loop that offers what *)
(* is left of it until all is taken, ignores interruptions, and gives up   *)
(* when nothing is taken or the writer fails; the first part that fails    *)
(* ends saving.  Checked for all answers against Transfer's `Saved`.       *)
(***************************************************************************)
EXTENDS Transfer, TLC

Parts == <<<<1, 2, 3>>, <<4>>, <<>>, <<5, 6>>>>
Whole == <<1, 2, 3, 4, 5, 6>>
Interrupts == 3   \* at most

VARIABLES part, at, state, ints
ivars == <<file, pos, failed, part, at, state, ints>>

IInit == TransferInit /\ part = 1 /\ at = 0 /\ state = "saving" /\ ints = 0

Offered == Len(Parts[part]) - at

(* the part is complete *)
NextPart == /\ state = "saving" /\ part <= Len(Parts) /\ Offered = 0
            /\ part' = part + 1 /\ at' = 0
            /\ UNCHANGED <<file, pos, failed, state, ints>>
Some == /\ state = "saving" /\ part <= Len(Parts) /\ Offered > 0
        /\ \E k \in 0..Offered :
             /\ Take(Offered, SubSeq(Parts[part], at + 1, at + k))
             /\ at' = at + k
             /\ state' = IF k = 0 THEN "error" ELSE state
        /\ UNCHANGED <<part, ints>>
Again == /\ state = "saving" /\ part <= Len(Parts) /\ Offered > 0 /\ ints < Interrupts
         /\ Interrupt /\ ints' = ints + 1
         /\ UNCHANGED <<part, at, state>>
Broken == /\ state = "saving" /\ part <= Len(Parts) /\ Offered > 0
          /\ Fail /\ state' = "error"
          /\ UNCHANGED <<part, at, ints>>
Done == /\ state = "saving" /\ part > Len(Parts)
        /\ state' = "ok"
        /\ UNCHANGED <<file, pos, failed, part, at, ints>>

INext == NextPart \/ Some \/ Again \/ Broken \/ Done
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(INext)

Ended == state \in {"ok", "error"}
(* what is reported is what Transfer allows *)
Reported == Ended => (state = "ok") = ~failed /\ (state = "ok" => file = Whole)
Ends == <>Ended
=============================================================================

---------------------------- MODULE HistoryStack ----------------------------
(***************************************************************************)
(* C24.  A stack that remembers its last four values.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES st,   \* remembered values, most recent first
          ret   \* what pop returned, <<>> if unspecified

Init == st = <<>> /\ ret = <<>>
Push(v) == st' = SubSeq(<<v>> \o st, 1, IF Len(st) < 4 THEN Len(st) + 1 ELSE 4) /\ ret' = <<>>
Pop == IF st = <<>> THEN st' = st /\ ret' = <<>>
       ELSE st' = Tail(st) /\ ret' = <<st[1]>>
Keep == UNCHANGED st /\ ret' = <<>>

Next(VS) == (\E v \in VS : Push(v)) \/ Pop \/ Keep
Bounded == Len(st) <= 4
=============================================================================

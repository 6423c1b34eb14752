-------------------------- MODULE HistoryStackImpl --------------------------
(* The circular array of four behind the history stack refines C24. *)
EXTENDS Integers, Sequences, TLC
CONSTANT Values
VARIABLES data, cursor, len, ret
vars == <<data, cursor, len, ret>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Init == data = [i \in 0..3 |-> 0] /\ cursor = 0 /\ len = 0 /\ ret = <<>>
Push(v) == /\ data' = [data EXCEPT ![cursor] = v]
           /\ cursor' = (cursor + 1) % 4
           /\ len' = Min(len + 1, 4)
           /\ ret' = <<>>
Pop == /\ cursor' = (cursor + 3) % 4
       /\ len' = Max(len - 1, 0)
       /\ ret' = IF len = 0 THEN <<>> ELSE <<data[cursor']>>
       /\ UNCHANGED data
Next == (\E v \in Values : Push(v)) \/ Pop
Spec == Init /\ [][Next]_vars

Prev(k) == data[(cursor + 4 - Min(k, len)) % 4]
Abs == INSTANCE HistoryStack WITH st <- [k \in 1..len |-> Prev(k)]
Refines == Abs!Init /\ [][Abs!Next(Values)]_vars
=============================================================================

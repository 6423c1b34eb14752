--------------------------- MODULE PackedListImpl ---------------------------
(***************************************************************************)
(* Values packed into words of W slots, kept by clear, refine PackedList   *)
(* (C20).  A slot is written by masking out its old value.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, Values, MaxLen

VARIABLES words, n
vars == <<words, n>>

Zero == [i \in 0..(W - 1) |-> 0]
Init == words = <<>> /\ n = 0
Push(v) ==
  LET w == n \div W
      grown == IF w >= Len(words) THEN Append(words, Zero) ELSE words
  IN n < MaxLen /\ words' = [grown EXCEPT ![w + 1][n % W] = v] /\ n' = n + 1
Set(i, v) == words' = (IF i >= n THEN words ELSE [words EXCEPT ![(i \div W) + 1][i % W] = v]) /\ n' = n
Clear == n' = 0 /\ UNCHANGED words
Truncate(k) == n' = (IF k < n THEN k ELSE n) /\ UNCHANGED words
Next == \/ \E v \in Values : Push(v)
        \/ \E v \in Values, i \in 0..(n + 1) : Set(i, v)
        \/ Clear
        \/ \E k \in 0..(n + 1) : Truncate(k)
Spec == Init /\ [][Next]_vars
Abs == INSTANCE PackedList WITH x <- [i \in 1..n |-> words[((i - 1) \div W) + 1][(i - 1) % W]]
Refines == Abs!Init /\ [][Abs!Next(Values)]_vars
=============================================================================

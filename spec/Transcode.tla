----------------------------- MODULE Transcode -----------------------------
(***************************************************************************)
(* C30.  A 16-bit code goes through conversions between formats: it is     *)
(* decoded to a float by one codec and quantised by the next one.  Checked *)
(* for all codes: the first conversion leaves it, or moves it one step     *)
(* towards zero, and no other conversion changes it any more.              *)
(***************************************************************************)
EXTENDS Float32

VARIABLES code,   \* as it is now
          first,  \* as it was
          gen     \* conversions so far

vars == <<code, first, gen>>

Init == code \in -32768..32767 /\ first = code /\ gen = 0

Again(c) == QuantizeBits(NormBits(c))

Next == gen < 3 /\ code' = Again(code) /\ gen' = gen + 1 /\ UNCHANGED first

Spec == Init /\ [][Next]_vars

(* silence stays silence, and nothing moves by more than one step or away from zero *)
Near == code = first \/ code = first - Sgn(first)
Bounded == gen > 0 => -32767 <= code /\ code <= 32767
Settled == [][gen > 0 => code' = code]_vars
=============================================================================

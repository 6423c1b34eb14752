------------------------------ MODULE BitStream ------------------------------
(***************************************************************************)
(* C18.  A sequence of bits with a cursor.  A write replaces what follows  *)
(* the cursor: what was beyond the written field is no longer defined.     *)
(* Reads and repositionings stay within what is defined.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES bits,   \* the defined content
          cur,    \* cursor, 0..Len(bits)
          cap,    \* the highest position reached
          ret     \* what the last read returned

Max(a, b) == IF a > b THEN a ELSE b
Field(p, n) == SubSeq(bits, p + 1, p + n)
InRange(p) == 0 <= p /\ p <= Len(bits)

Init == bits = <<>> /\ cur = 0 /\ cap = 0 /\ ret = <<>>

Write(v) == /\ bits' = Field(0, cur) \o v
            /\ cur' = cur + Len(v)
            /\ cap' = Max(cap, cur')
            /\ ret' = <<>>
Read(n) == /\ InRange(cur + n)
           /\ ret' = Field(cur, n)
           /\ cur' = cur + n
           /\ cap' = Max(cap, cur')
           /\ bits' = bits
Peek(n) == /\ InRange(cur + n)
           /\ ret' = Field(cur, n)
           /\ UNCHANGED <<bits, cur, cap>>
Seek(p) == InRange(p) /\ cur' = p /\ ret' = <<>> /\ UNCHANGED <<bits, cap>>
Move(d) == InRange(cur + d) /\ cur' = cur + d /\ ret' = <<>> /\ UNCHANGED <<bits, cap>>
Zero == bits' = [i \in DOMAIN bits |-> 0] /\ ret' = <<>> /\ UNCHANGED <<cur, cap>>

Inv == InRange(cur) /\ Len(bits) <= cap
=============================================================================

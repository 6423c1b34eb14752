------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Saving to a writer and loading from a reader that behave as they like   *)
(* (C16).  Every call of the library on the writer gets one of the answers *)
(*   some bytes are taken / nothing is taken / interrupted / failed        *)
(* and every call on the reader some of the bytes asked for, or a failure. *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES file,    \* what the writer took, the bytes of the file
          pos,     \* bytes the reader gave
          failed   \* the writer or the reader has failed

tvars == <<file, pos, failed>>

TransferInit == file = <<>> /\ pos = 0 /\ failed = FALSE

(* the writer is offered n > 0 bytes and takes b *)
Take(n, b) ==
  /\ Len(b) <= n
  /\ file' = file \o b
  \* a writer that takes nothing won't ever
  /\ failed' = (failed \/ Len(b) = 0)
  /\ UNCHANGED pos
Interrupt == UNCHANGED tvars
Fail == failed' = TRUE /\ UNCHANGED <<file, pos>>

(* saving is over, the complete file is `whole` *)
Saved(ok, whole) ==
  /\ ok = IF failed THEN 0 ELSE 1
  /\ ok = 1 => file = whole
  /\ UNCHANGED tvars

(* the reader gives n bytes *)
Give(n) == pos' = pos + n /\ UNCHANGED <<file, failed>>

(* loading is over; `same` tells whether the stream is the one an ordinary reader gives *)
Loaded(ok, same) ==
  /\ ok = IF failed THEN 0 ELSE 1
  /\ ok = 1 => same = 1
  /\ UNCHANGED tvars
=============================================================================

----------------------------- MODULE PackedList -----------------------------
(***************************************************************************)
(* C20.  Bit vectors and nibble lists are plain lists of small values.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLE x

Init == x = <<>>
Push(v) == x' = Append(x, v)
PushAll(vs) == x' = x \o vs
(* i counts from 0; behind the end there is nothing to set *)
Set(i, v) == x' = IF i < Len(x) THEN [x EXCEPT ![i + 1] = v] ELSE x
Clear == x' = <<>>
(* keeps the first n *)
Truncate(n) == x' = IF n < Len(x) THEN SubSeq(x, 1, n) ELSE x

(* The bits that n bits take up in words of 64, n as four pieces of 16 bits. *)
RECURSIVE Carried(_, _)
Carried(n, i) == IF i = 0 \/ n[i] < 65536 THEN n
                 ELSE Carried([n EXCEPT ![i] = @ - 65536, ![i - 1] = @ + 1], i - 1)
Words(n) == Carried([n EXCEPT ![4] = ((@ + 63) \div 64) * 64], 4)

Next(VS) == \/ \E v \in VS : Push(v)
            \/ \E v \in VS, i \in 0..(Len(x) + 1) : Set(i, v)
            \/ Clear
            \/ \E n \in 0..Len(x) : Truncate(n)
=============================================================================

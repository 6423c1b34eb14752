------------------------------ MODULE RiceCode ------------------------------
(***************************************************************************)
(* C19.  Codes are written one after the other, and read back with the     *)
(* same parameter from where they were written.  `toks` has one record     *)
(* per code: [k: kind, p: parameter, v: value, at: start, n: bits].        *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES toks, cur

Magnitude(v) == IF v < 0 THEN -v ELSE v
RiceLen(e, v) == Magnitude(v) \div (2^e) + e + 2

Init == toks = <<>> /\ cur = 0

(* what starts at or after the cursor is replaced *)
Write(k, p, v, n) ==
  /\ toks' = Append(SelectSeq(toks, LAMBDA t : t.at < cur), [k |-> k, p |-> p, v |-> v, at |-> cur, n |-> n])
  /\ cur' = cur + n
Here == {i \in DOMAIN toks : toks[i].at = cur /\ toks[i].n > 0}
Tok == toks[CHOOSE i \in Here : TRUE]
Read(k, p) == Here # {} /\ Tok.k = k /\ Tok.p = p /\ cur' = cur + Tok.n /\ UNCHANGED toks
Rewind == cur' = 0 /\ UNCHANGED toks
=============================================================================

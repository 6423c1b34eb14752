---------------------------- MODULE BitStreamGen ----------------------------
(* All scripts of a given length over fields that end before, at and behind
   the boundaries of 128-bit chunks, read back in full at the end. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes, Depth
VARIABLES h, d, cur, known
S(n) == ToString(n)
Say(s) == h' = h \o ";" \o s
Near == {p \in {0, 1, 5, 127, 128, 129, 255, 256, known} : p <= known}
GInit == h = "0" /\ d = 0 /\ cur = 0 /\ known = 0
GNext ==
  /\ d < Depth /\ d' = d + 1
  /\ \/ \E n \in Sizes, v \in {1, 2} :
          /\ Say("w " \o S(n) \o " " \o S(IF v = 1 THEN 1 ELSE d + 2))
          /\ cur' = cur + n /\ known' = cur + n
     \/ /\ Say("w1 1") /\ cur' = cur + 1 /\ known' = cur + 1
     \/ \E n \in Sizes : cur + n <= known /\ Say("r " \o S(n)) /\ cur' = cur + n /\ known' = known
     \/ \E p \in Near \ {cur} : Say("seek " \o S(p)) /\ cur' = p /\ known' = known
RECURSIVE ReadBack(_)
ReadBack(n) == IF n = 0 THEN "" ELSE IF n <= 100 THEN ";r " \o S(n) ELSE ";r 100" \o ReadBack(n - 100)
GSpec == GInit /\ [][GNext]_<<h, d, cur, known>>
EmitLeaf == d' = Depth => PrintT("S|" \o h' \o ";start" \o ReadBack(known'))
=============================================================================

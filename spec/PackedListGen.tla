---------------------------- MODULE PackedListGen ----------------------------
(* All scripts of a given length over pushes up to word boundaries, sets and
   clears. *)
EXTENDS PackedList, TLC
CONSTANTS Hi,      \* largest value
          Bulk,    \* lengths of bulk pushes
          Depth
VARIABLES h, d
S(n) == ToString(n)
Say(s) == h' = h \o ";" \o s
GInit == Init /\ h = "" /\ d = 0
Places == IF x = <<>> THEN {0} ELSE {0, Len(x) - 1, Len(x) \div 2, Len(x), Len(x) + 1}
GNext ==
  /\ d < Depth /\ d' = d + 1
  /\ \/ \E v \in {0, Hi} : Push(v) /\ Say("push " \o S(v))
     \/ \E n \in Bulk : PushAll([i \in 1..n |-> 0]) /\ Say("pushn " \o S(n) \o " " \o S(Hi + 1) \o " " \o S(d))
     \/ \E i \in Places, v \in {0, Hi} : Set(i, v) /\ Say("set " \o S(i) \o " " \o S(v))
     \/ Clear /\ Say("clear")
     \/ x # <<>> /\ \E n \in {Len(x) \div 2, Len(x) - 1} : Truncate(n) /\ Say("trunc " \o S(n))
GSpec == GInit /\ [][GNext]_<<x, h, d>>
EmitLeaf == d' = Depth => PrintT("S|" \o h')
=============================================================================

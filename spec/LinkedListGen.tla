---------------------------- MODULE LinkedListGen ----------------------------
(***************************************************************************)
(* One script per transition of the implementation model (contents aside): *)
(* a shortest way to each arrangement of nodes and pool, then each         *)
(* operation.  Positions are 0-based indices into the list.                *)
(***************************************************************************)
EXTENDS LinkedListImpl

VARIABLE h

Vw == <<[i \in DOMAIN L.mem |-> <<L.mem[i].l, L.mem[i].r>>], L.front, L.rear, L.pool, L.len>>
v0 == TLCGet("level")
Say(x) == h' = h \o ";" \o x
S(n) == ToString(n)

GInit == Init /\ h = ""
GNext ==
  \/ PushFront(v0) /\ Say("pushf " \o S(v0))
  \/ PushRear(v0) /\ Say("pushr " \o S(v0))
  \/ \E i \in DOMAIN Walk(L), dir \in {0, 1} :
        Insert(Walk(L)[i], dir, v0) /\ Say("ins " \o S(i - 1) \o " " \o S(dir) \o " " \o S(v0))
  \/ PopFront /\ Say("popf")
  \/ PopRear /\ Say("popr")
  \/ \E i \in DOMAIN Walk(L) : Remove(Walk(L)[i]) /\ Say("rem " \o S(i - 1))
  \/ \E i \in DOMAIN Walk(L) : Set(Walk(L)[i], v0) /\ Say("set " \o S(i - 1) \o " " \o S(v0))
GSpec == GInit /\ [][GNext]_<<vars, h>>

(* what a wrong pointer would do shows in later operations *)
Probe == ";rem 0;ins 1 0 91;rem 1;popr;popr;popr;popr;popr;pushf 92;pushr 93;pushf 94;pushr 95;" \o
         "ins 2 1 96;popr;popr;popf;popr;popr"

Emit == PrintT("S|" \o h' \o Probe)
=============================================================================

--------------------------- MODULE LinkedListImpl ---------------------------
(***************************************************************************)
(* The implementation of the linked list refines LinkedList.tla (C21).     *)
(***************************************************************************)
EXTENDS ListOps, TLC

CONSTANTS MaxNodes, Values

VARIABLES L, ret
vars == <<L, ret>>

Live == {Walk(L)[i] : i \in DOMAIN Walk(L)}

Init == L = EmptyList /\ ret = <<>>

Room == L.pool # NULL \/ Len(L.mem) < MaxNodes

PushFront(v) == Room /\ L' = InsertNode(L, L.front, 0, v) /\ ret' = <<>>
PushRear(v) == Room /\ L' = InsertNode(L, L.rear, 1, v) /\ ret' = <<>>
Insert(p, dir, v) == Room /\ L' = InsertNode(L, p, dir, v) /\ ret' = <<>>
PopFront == LET x == RemoveNode(L, L.front) IN L' = x[1] /\ ret' = x[2]
PopRear == LET x == RemoveNode(L, L.rear) IN L' = x[1] /\ ret' = x[2]
Remove(p) == LET x == RemoveNode(L, p) IN L' = x[1] /\ ret' = x[2]
Set(p, v) == L' = [L EXCEPT !.mem[p + 1].d = <<v>>] /\ ret' = <<>>

Next ==
  \/ \E v \in Values : PushFront(v) \/ PushRear(v)
  \/ \E v \in Values, p \in Live, dir \in {0, 1} : Insert(p, dir, v)
  \/ PopFront
  \/ PopRear
  \/ \E p \in Live : Remove(p)
  \/ \E p \in Live, v \in Values : Set(p, v)

Spec == Init /\ [][Next]_vars

Inv == WellFormed(L)

Abs == INSTANCE LinkedList WITH s <- Abstract(L), ret <- ret
Refines == Abs!Spec(0..(MaxNodes - 1), Values)
=============================================================================

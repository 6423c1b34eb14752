------------------------------- MODULE ListOps -------------------------------
(***************************************************************************)
(* The linked list as implemented: nodes in a growing array, circularly    *)
(* doubly linked, removed nodes chained to a pool.  A list is a record     *)
(* [mem, front, rear, pool, len]; pointers count from 0, NULL is -1; a     *)
(* node is [d, l, r], d = <<>> or <<value>>.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NULL == -1
Node(L, p) == L.mem[p + 1]
EmptyList == [mem |-> <<>>, front |-> NULL, rear |-> NULL, pool |-> NULL, len |-> 0]

SetL(L, p, x) == [L EXCEPT !.mem[p + 1].l = x]
SetR(L, p, x) == [L EXCEPT !.mem[p + 1].r = x]
Left(L, p) == Node(L, p).l
Right(L, p) == Node(L, p).r
Side(L, p, dir) == IF dir = 0 THEN Left(L, p) ELSE Right(L, p)
SetSide(L, p, dir, x) == IF dir = 0 THEN SetL(L, p, x) ELSE SetR(L, p, x)

(* <<list, pointer>> *)
Allocate(L, v) ==
  IF L.pool = NULL
  THEN <<[L EXCEPT !.mem = Append(@, [d |-> <<v>>, l |-> NULL, r |-> NULL])], Len(L.mem)>>
  ELSE LET p == L.pool
       IN <<[L EXCEPT !.pool = Right(L, p), !.mem[p + 1] = [d |-> <<v>>, l |-> NULL, r |-> NULL]], p>>

(* <<list, result>> *)
Free(L, p) ==
  <<[L EXCEPT !.mem[p + 1] = [d |-> <<>>, l |-> NULL, r |-> L.pool], !.pool = p], Node(L, p).d>>

RemoveNode(L, p) ==
  IF L.len = 0 THEN <<L, <<>>>>
  ELSE IF L.len = 1
  THEN Free([L EXCEPT !.front = NULL, !.rear = NULL, !.len = 0], L.rear)
  ELSE LET a == Left(L, p)
           b == Right(L, p)
           L1 == SetR(L, a, b)
           L2 == SetL(L1, b, a)
           L3 == IF p = L2.front THEN [L2 EXCEPT !.front = Right(L2, p)] ELSE L2
           L4 == IF p = L3.rear THEN [L3 EXCEPT !.rear = Left(L3, p)] ELSE L3
       IN Free([L4 EXCEPT !.len = @ - 1], p)

InsertNode(L, p, dir, v) ==
  IF L.len = 0
  THEN LET A == Allocate(L, v)
           n == A[2]
           L1 == SetL(SetR(A[1], n, n), n, n)
       IN [L1 EXCEPT !.front = n, !.rear = n, !.len = 1]
  ELSE IF p = NULL THEN L
  ELSE LET A == Allocate(L, v)
           n == A[2]
           adj == Side(A[1], p, dir)
           L1 == SetSide(A[1], p, dir, n)
           L2 == SetSide(L1, adj, 1 - dir, n)
           L3 == SetSide(L2, n, 1 - dir, p)
           L4 == SetSide(L3, n, dir, adj)
           L5 == IF p = L4.front /\ dir = 0 THEN [L4 EXCEPT !.front = n] ELSE L4
           L6 == IF p = L5.rear /\ dir = 1 THEN [L5 EXCEPT !.rear = n] ELSE L5
       IN [L6 EXCEPT !.len = @ + 1]

(* the pointers in order *)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(L, p, n) == IF n = 0 THEN <<>> ELSE <<p>> \o WalkFrom(L, Right(L, p), n - 1)
Walk(L) == WalkFrom(L, L.front, L.len)

RECURSIVE PoolFrom(_, _, _)
PoolFrom(L, p, n) == IF p = NULL \/ n = 0 THEN <<>> ELSE <<p>> \o PoolFrom(L, Right(L, p), n - 1)
Pool(L) == PoolFrom(L, L.pool, Len(L.mem) + 1)

(* the sequence that the list stands for *)
Abstract(L) == [i \in DOMAIN Walk(L) |-> <<Walk(L)[i], Node(L, Walk(L)[i]).d[1]>>]

WellFormed(L) ==
  LET w == Walk(L)
      q == Pool(L)
      n == L.len
  IN /\ n + Len(q) = Len(L.mem)
     /\ \A i, j \in 1..n : w[i] = w[j] => i = j
     /\ \A i \in 1..n, j \in DOMAIN q : w[i] # q[j]
     /\ \A i \in 1..n : Node(L, w[i]).d # <<>>
     /\ \A j \in DOMAIN q : Node(L, q[j]).d = <<>>
     /\ n > 0 => w[n] = L.rear
     /\ n > 0 => \A i \in 1..n : /\ Right(L, w[i]) = w[(i % n) + 1]
                                 /\ Left(L, w[(i % n) + 1]) = w[i]
=============================================================================

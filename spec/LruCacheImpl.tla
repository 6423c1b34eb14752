---------------------------- MODULE LruCacheImpl ----------------------------
(***************************************************************************)
(* The cache as implemented, a table of handles into the linked list of    *)
(* ListOps.tla, refines LruCache.tla (C22).  Its use of the list is also   *)
(* checked: handles in the table always designate live nodes.              *)
(***************************************************************************)
EXTENDS ListOps, TLC

CONSTANTS Cap, Keys, Values

VARIABLES L, table, ret
vars == <<L, table, ret>>

Has(k) == k \in DOMAIN table
Data(M, p) == Node(M, p).d[1]          \* <<key, value>>
Drop(t, k) == [x \in DOMAIN t \ {k} |-> t[x]]

Init == L = EmptyList /\ table = <<>> /\ ret = <<>>

(* <<list, handle of the raised entry>> *)
Raise(k, new) ==
  LET x == RemoveNode(L, table[k])
      e == x[2][1]
      M == InsertNode(x[1], x[1].front, 0, IF new = <<>> THEN e ELSE <<e[1], new[1]>>)
  IN <<M, M.front>>

Get(k) ==
  IF Has(k)
  THEN LET x == Raise(k, <<>>)
       IN L' = x[1] /\ table' = [table EXCEPT ![k] = x[2]] /\ ret' = <<Data(x[1], x[2])[2]>>
  ELSE UNCHANGED <<L, table>> /\ ret' = <<>>
GetMut(k, v) ==
  IF Has(k)
  THEN LET x == Raise(k, <<>>)
       IN /\ L' = [x[1] EXCEPT !.mem[x[2] + 1].d = <<<<k, v>>>>]
          /\ table' = [table EXCEPT ![k] = x[2]]
          /\ ret' = <<Data(x[1], x[2])[2]>>
  ELSE UNCHANGED <<L, table>> /\ ret' = <<>>
Lookup(k) == UNCHANGED <<L, table>> /\ ret' = IF Has(k) THEN <<Data(L, table[k])[2]>> ELSE <<>>
Remove(k) ==
  IF Has(k)
  THEN LET x == RemoveNode(L, table[k])
       IN L' = x[1] /\ table' = Drop(table, x[2][1][1]) /\ ret' = <<x[2][1][2]>>
  ELSE UNCHANGED <<L, table>> /\ ret' = <<>>
Put(k, v) ==
  /\ ret' = <<>>
  /\ IF Has(k)
     THEN LET x == Raise(k, <<v>>) IN L' = x[1] /\ table' = [table EXCEPT ![k] = x[2]]
     ELSE LET full == L.len >= Cap
              out == Data(L, L.rear)[1]
              M == IF full THEN RemoveNode(L, L.rear)[1] ELSE L
              t == IF full THEN Drop(table, out) ELSE table
              N == InsertNode(M, M.front, 0, <<k, v>>)
          IN L' = N /\ table' = (k :> N.front) @@ t

Next == \E k \in Keys : \/ Get(k) \/ Lookup(k) \/ Remove(k)
                        \/ \E v \in Values : Put(k, v) \/ GetMut(k, v)
Spec == Init /\ [][Next]_vars

Inv == /\ WellFormed(L)
       /\ Len(L.mem) <= Cap
       /\ {table[k] : k \in DOMAIN table} = {Walk(L)[i] : i \in DOMAIN Walk(L)}
       /\ \A k \in DOMAIN table : Data(L, table[k])[1] = k

Abs == INSTANCE LruCache WITH c <- [i \in DOMAIN Walk(L) |-> Data(L, Walk(L)[i])], cap <- Cap
Refines == Abs!Init(Cap) /\ [][Abs!Next(Keys, Values)]_vars
=============================================================================

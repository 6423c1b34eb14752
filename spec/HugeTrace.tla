----------------------------- MODULE HugeTrace -----------------------------
(***************************************************************************)
(* C18, C20-C23, C25 for collections of more elements than 16 bits count.  *)
(* The specifications are the same sequences as in LinkedList, LruCache,   *)
(* RingBuffer, PackedList and BitStream; a step here stands for thousands  *)
(* of theirs, and what a collection holds is looked at in "show" only.     *)
(*                                                                         *)
(* The collection is Cfg[1]:  1 list, 2 ring, 3 bits or nibbles, 4 cache,  *)
(* 5 bit stream.  Cfg[2] is the capacity of a ring or cache, the width of  *)
(* the fields of a bit stream; Cfg[3] the number of keys.                  *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets

VARIABLES x,     \* the elements, of a cache the keys, the most recent first
          pos,   \* position in a bit stream, in fields
          top,   \* its highest position
          val    \* of each key: the value stored, -1 for none

vars == <<sc, l, x, pos, top, val>>
rest == <<pos, top, val>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Run(from, step, n) == [i \in 1..n |-> from + (i - 1) * step]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
First(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n + 1, Len(s))

Unbounded == Cfg[1] # 2
Room(n) == IF Unbounded THEN n ELSE Min(n, Cfg[2] - Len(x))

TInit == TBInit /\ x = <<>> /\ pos = 0 /\ top = 0 /\ val = [k \in 1..Cfg[3] |-> -1]

(* n elements of consecutive values, one after the other, at the front (0) or rear (1) *)
Pushes(end, from, n) ==
  /\ \E q \in {Run(from, 1, Room(n))} : x' = IF end = 0 THEN Rev(q) \o x ELSE x \o q
  /\ UNCHANGED rest
Pops(end, n, ret) ==
  /\ \E m \in {Min(n, Len(x))} :
       IF end = 0 THEN ret = First(x, m) /\ x' = From(x, m)
       ELSE ret = Rev(From(x, Len(x) - m)) /\ x' = First(x, Len(x) - m)
  /\ UNCHANGED rest

(* every k-th element is removed by its handle *)
Thin(k, ret) ==
  /\ ret = [i \in 1..(Len(x) \div k) |-> x[i * k]]
  /\ x' = [j \in 1..(Len(x) - Len(x) \div k) |-> x[((j - 1) \div (k - 1)) * k + ((j - 1) % (k - 1)) + 1]]
  /\ UNCHANGED rest
(* elements are inserted right of the k-th *)
Middle(k, from, n) == x' = First(x, k) \o Rev(Run(from, 1, n)) \o From(x, k) /\ UNCHANGED rest

(* bits and nibbles *)
Appends(v) == x' = x \o v /\ UNCHANGED rest
Sets(from, step, n, v) ==
  /\ x' = [i \in DOMAIN x |-> IF i - 1 >= from /\ (i - 1 - from) % step = 0 /\ (i - 1 - from) \div step < n
                              THEN v ELSE x[i]]
  /\ UNCHANGED rest
Truncate(n) == x' = First(x, Min(n, Len(x))) /\ UNCHANGED rest
Clear == x' = <<>> /\ UNCHANGED rest

(* keys from, from + step, ..: put with the value key + add, fetched, removed *)
Of(k, from, step, n) == k >= from /\ (k - from) % step = 0 /\ (k - from) \div step < n
Others(from, step, n) == SelectSeq(x, LAMBDA k : ~Of(k, from, step, n))
Tuple(s) == s \o <<>>   \* TLC works with tuples much faster
Latest(from, step, n) == Tuple([i \in 1..n |-> from + (n - i) * step])
(* TLC sorts a set when it's counted, and finds elements in a sorted one much faster *)
Set(s) == CHOOSE S \in {{s[i] : i \in DOMAIN s}} : Cardinality(S) >= 0
Puts(from, step, n, add) ==
  \E all \in {Latest(from, step, n) \o Others(from, step, n)} :
  \E S \in {Set(From(all, Min(Cfg[2], Len(all))))} :
    /\ x' = First(all, Min(Cfg[2], Len(all)))
    /\ val' = Tuple([k \in DOMAIN val |-> IF k - 1 \in S THEN -1
                                          ELSE IF Of(k - 1, from, step, n) THEN k - 1 + add ELSE val[k]])
    /\ UNCHANGED <<pos, top>>
Got(from, step, n) == [i \in 1..n |-> val[from + (i - 1) * step + 1]]
Gets(from, step, n, ret) ==
  /\ ret = Got(from, step, n)
  /\ x' = SelectSeq(Latest(from, step, n), LAMBDA k : val[k + 1] # -1) \o Others(from, step, n)
  /\ UNCHANGED rest
Removes(from, step, n, ret) ==
  /\ ret = Got(from, step, n)
  /\ x' = Others(from, step, n)
  /\ val' = Tuple([k \in DOMAIN val |-> IF Of(k - 1, from, step, n) THEN -1 ELSE val[k]])
  /\ UNCHANGED <<pos, top>>

(* fields of a bit stream *)
Writes(v) ==
  /\ x' = First(x, pos) \o v
  /\ pos' = pos + Len(v) /\ top' = Max(top, pos') /\ val' = val
Reads(n, ret) ==
  /\ ret = SubSeq(x, pos + 1, pos + n)
  /\ pos' = pos + n /\ top' = Max(top, pos') /\ UNCHANGED <<x, val>>
Seek(p) == pos' = p /\ UNCHANGED <<x, top, val>>

TNext ==
  \/ Is("make") /\ UNCHANGED <<x, pos, top, val>>
  \/ Is("reload") /\ UNCHANGED <<x, pos, top, val>>
  \/ Is("pushes") /\ Pushes(Ev.end, Ev.from, Ev.n)
  \/ Is("pops") /\ Pops(Ev.end, Ev.n, Ev.ret)
  \/ Is("thin") /\ Thin(Ev.k, Ev.ret)
  \/ Is("middle") /\ Middle(Ev.k, Ev.from, Ev.n)
  \/ Is("appends") /\ Appends(Ev.v)
  \/ Is("sets") /\ Sets(Ev.from, Ev.step, Ev.n, Ev.v)
  \/ Is("trunc") /\ Truncate(Ev.n)
  \/ Is("clear") /\ Clear
  \/ Is("puts") /\ Puts(Ev.from, Ev.step, Ev.n, Ev.add)
  \/ Is("gets") /\ Gets(Ev.from, Ev.step, Ev.n, Ev.ret)
  \/ Is("removes") /\ Removes(Ev.from, Ev.step, Ev.n, Ev.ret)
  \/ Is("writes") /\ Writes(Ev.v) /\ Ev.cur = pos' * Cfg[2] /\ Ev.cap = top' * Cfg[2]
  \/ Is("reads") /\ Reads(Ev.n, Ev.ret) /\ Ev.cur = pos' * Cfg[2] /\ Ev.cap = top' * Cfg[2]
  \/ Is("seek") /\ Seek(Ev.n) /\ Ev.cur = pos' * Cfg[2]
  \* everything that can be seen, in two ways: by iterating, and by handle or index
  \/ Is("show") /\ Ev.len = Len(x) /\ Ev.it = x /\ Ev.at = x /\ UNCHANGED <<x, pos, top, val>>
  \/ Is("looks") /\ Ev.len = Len(x) /\ Ev.look = val /\ UNCHANGED <<x, pos, top, val>>
  \/ Finished /\ UNCHANGED vars

View == <<sc, l>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================

----------------------------- MODULE LinkedList -----------------------------
(***************************************************************************)
(* C21.  A linked list is a sequence of elements, each with a handle that  *)
(* designates it for as long as it is in the list.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLE s        \* sequence of <<handle, value>>
VARIABLE ret      \* result of the last operation: <<>> or <<value>>

Handles == {s[i][1] : i \in DOMAIN s}
Pos(h) == CHOOSE i \in DOMAIN s : s[i][1] = h

(* x before position i *)
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Init == s = <<>> /\ ret = <<>>

(* the list chooses the handle of a new element, only not that of a live one *)
PushFront(h, v) == h \notin Handles /\ s' = <<<<h, v>>>> \o s /\ ret' = <<>>
PushRear(h, v) == h \notin Handles /\ s' = Append(s, <<h, v>>) /\ ret' = <<>>
Insert(at, right, h, v) ==
  /\ h \notin Handles
  /\ IF s = <<>> THEN s' = <<<<h, v>>>>
     ELSE at \in Handles /\ s' = InsertAt(s, Pos(at) + right, <<h, v>>)
  /\ ret' = <<>>

PopFront == IF s = <<>> THEN UNCHANGED s /\ ret' = <<>>
            ELSE s' = Tail(s) /\ ret' = <<s[1][2]>>
PopRear == IF s = <<>> THEN UNCHANGED s /\ ret' = <<>>
           ELSE s' = SubSeq(s, 1, Len(s) - 1) /\ ret' = <<s[Len(s)][2]>>
Remove(h) == IF s = <<>> THEN UNCHANGED s /\ ret' = <<>>
             ELSE h \in Handles /\ s' = RemoveAt(s, Pos(h)) /\ ret' = <<s[Pos(h)][2]>>
Set(h, v) == IF s = <<>> THEN UNCHANGED s /\ ret' = <<>>
             ELSE h \in Handles /\ s' = [s EXCEPT ![Pos(h)] = <<h, v>>] /\ ret' = <<>>
AddAll(v) == s' = [i \in DOMAIN s |-> <<s[i][1], s[i][2] + v>>] /\ ret' = <<>>

Next(HS, VS) ==
  \/ \E h \in HS, v \in VS : \/ PushFront(h, v)
                              \/ PushRear(h, v)
                              \/ \E at \in HS, right \in {0, 1} : Insert(at, right, h, v)
  \/ PopFront
  \/ PopRear
  \/ \E h \in HS : Remove(h)
  \/ \E h \in HS, v \in VS : Set(h, v)

Spec(HS, VS) == Init /\ [][Next(HS, VS)]_<<s, ret>>

HandlesDistinct == \A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j
=============================================================================

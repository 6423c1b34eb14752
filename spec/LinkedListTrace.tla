--------------------------- MODULE LinkedListTrace ---------------------------
EXTENDS TraceBase, LinkedList

TInit == TBInit /\ Init

Col(i) == [k \in DOMAIN s' |-> s'[k][i]]

(* everything the list shows after the operation *)
Shows == /\ Ev.ret = ret'
         /\ Ev.len = Len(s')
         /\ Ev.hs = Col(1)
         /\ Ev.vs = Col(2)
         /\ Ev.gs = Col(2)
         /\ Ev.ms = Col(2)
         /\ s' # <<>> => Ev.front = s'[1][1] /\ Ev.rear = s'[Len(s')][1]

NewHandle(i) == IF i \in DOMAIN Ev.hs THEN Ev.hs[i] ELSE -1

TNext ==
  \/ Is("make") /\ UNCHANGED <<s, ret>>
  \/ Is("pushf") /\ PushFront(NewHandle(1), Ev.v) /\ Shows
  \/ Is("pushr") /\ PushRear(NewHandle(Len(s) + 1), Ev.v) /\ Shows
  \/ /\ Is("ins")
     /\ LET i == IF s = <<>> THEN 1
                 ELSE IF Ev.h \in Handles THEN Pos(Ev.h) + Ev.dir ELSE 0
        IN Insert(Ev.h, Ev.dir, NewHandle(i), Ev.v)
     /\ Shows
  \/ Is("popf") /\ PopFront /\ Shows
  \/ Is("popr") /\ PopRear /\ Shows
  \/ Is("rem") /\ Remove(Ev.h) /\ Shows
  \/ Is("set") /\ Set(Ev.h, Ev.v) /\ Shows
  \/ Is("addall") /\ AddAll(Ev.v) /\ Shows
  \/ Finished /\ UNCHANGED <<sc, l, s, ret>>

TSpec == TInit /\ [][TNext]_<<sc, l, s, ret>>
=============================================================================

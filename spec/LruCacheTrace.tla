---------------------------- MODULE LruCacheTrace ----------------------------
EXTENDS TraceBase, LruCache

TInit == TBInit /\ Init(Cfg[1])

Shows ==
  /\ Ev.ret = ret'
  /\ Ev.len = Len(c')
  /\ Len(Ev.look) = Cfg[2]
  /\ \A k \in 1..Cfg[2] :
        LET at == {i \in DOMAIN c' : c'[i][1] = k - 1}
        IN Ev.look[k] = IF at = {} THEN -1 ELSE c'[CHOOSE i \in at : TRUE][2]

TNext ==
  \/ Is("make") /\ UNCHANGED <<c, cap, ret>>
  \/ Is("put") /\ Put(Ev.a[1], Ev.a[2]) /\ Shows
  \/ Is("get") /\ Get(Ev.a[1]) /\ Shows
  \/ Is("getm") /\ GetMut(Ev.a[1], Ev.a[2]) /\ Shows
  \/ Is("look") /\ Lookup(Ev.a[1]) /\ Shows
  \/ Is("rem") /\ Remove(Ev.a[1]) /\ Shows
  \/ Finished /\ UNCHANGED <<sc, l, c, cap, ret>>

TSpec == TInit /\ [][TNext]_<<sc, l, c, cap, ret>>
=============================================================================

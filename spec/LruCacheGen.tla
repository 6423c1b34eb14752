----------------------------- MODULE LruCacheGen -----------------------------
(* One script per transition of the implementation model, values aside. *)
EXTENDS LruCacheImpl
VARIABLE h
Vw == <<[i \in DOMAIN L.mem |-> <<L.mem[i].l, L.mem[i].r>>], L.front, L.rear, L.pool, table>>
v0 == TLCGet("level")
S(n) == ToString(n)
Say(x) == h' = h \o ";" \o x
GInit == Init /\ h = S(Cap) \o " " \o S(Cap + 2)
GNext == \E k \in Keys :
           \/ Get(k) /\ Say("get " \o S(k))
           \/ GetMut(k, v0) /\ Say("getm " \o S(k) \o " " \o S(v0))
           \/ Lookup(k) /\ Say("look " \o S(k))
           \/ Remove(k) /\ Say("rem " \o S(k))
           \/ Put(k, v0) /\ Say("put " \o S(k) \o " " \o S(v0))
GSpec == GInit /\ [][GNext]_<<vars, h>>
(* evictions one after the other show the order *)
Probe == ";put 91 1;put 92 2;put 93 3;put 0 94;get 0;put 95 5;put 96 6;put 97 7"
Emit == PrintT("S|" \o h' \o Probe)
=============================================================================

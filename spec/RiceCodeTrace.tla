---------------------------- MODULE RiceCodeTrace ----------------------------
EXTENDS TraceBase, RiceCode

TInit == TBInit /\ Init

Moved == Ev.cur - cur

(* a run of codes with one exponent: bits written, values read, bits read *)
Sweep ==
  /\ Len(Ev.dw) = Ev.n /\ Len(Ev.rv) = Ev.n /\ Len(Ev.dr) = Ev.n
  /\ TRUE = \A i \in 1..Ev.n : LET v == Ev.lo + i - 1
                        IN /\ Ev.rv[i] = v
                           /\ Ev.dw[i] = RiceLen(Ev.e, v)
                           /\ Ev.dr[i] = Ev.dw[i]
  /\ UNCHANGED <<toks, cur>>

TNext ==
  \/ Is("make") /\ UNCHANGED <<toks, cur>>
  \/ Is("w") /\ Write("w", Ev.n, Ev.v, Ev.n) /\ Ev.cur = cur'
  \/ Is("r") /\ Read("w", Ev.n) /\ Ev.ret = Tok.v /\ Ev.cur = cur'
  \/ Is("wc") /\ Write("wc", Ev.a[1], Ev.a[2], RiceLen(Ev.a[1], Ev.a[2])) /\ Ev.cur = cur'
  \/ Is("rc") /\ Read("wc", Ev.a[1]) /\ Ev.ret = Tok.v /\ Ev.cur = cur'
  \* the length of a capped code is not prescribed
  \/ Is("wcap") /\ Moved > 0 /\ Write("wcap", Ev.a[1], Ev.a[2], Moved)
  \/ Is("rcap") /\ Read("wcap", Ev.a[1]) /\ Ev.ret = Tok.v /\ Ev.cur = cur'
  \/ Is("start") /\ Rewind /\ Ev.cur = cur'
  \/ Is("sweep") /\ Sweep
  \/ Finished /\ UNCHANGED <<sc, l, toks, cur>>

TSpec == TInit /\ [][TNext]_<<sc, l, toks, cur>>
=============================================================================

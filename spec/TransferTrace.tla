--------------------------- MODULE TransferTrace ---------------------------
(* Recorded calls of the library on writers and readers are behaviours of Transfer. *)
EXTENDS TraceBase, Transfer

allvars == <<sc, l, file, pos, failed>>

TInit == TBInit /\ TransferInit

TNext ==
  \/ Is("begin") /\ file' = <<>> /\ pos' = 0 /\ failed' = FALSE
  \/ Is("took") /\ Take(Ev.n, Ev.b)
  \/ Is("interrupted") /\ Interrupt
  \/ Is("failed") /\ Fail
  \/ Is("saved") /\ Saved(Ev.ok, Ev.whole)
  \/ Is("gave") /\ Give(Ev.n)
  \/ Is("loaded") /\ Loaded(Ev.ok, IF Ev.rate = Ev.rate0 /\ Ev.ch = Ev.ch0 /\ Ev.out = Ev.out0 THEN 1 ELSE 0)
  \/ Finished /\ UNCHANGED allvars

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

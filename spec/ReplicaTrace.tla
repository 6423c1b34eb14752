---------------------------- MODULE ReplicaTrace ----------------------------
(***************************************************************************)
(* C26.  Replicas are codecs that get the same calls; Ev.k numbers the     *)
(* calls.  What a call gives is a function of the calls before it: it's    *)
(* learnt from the replica that gets there first, and every other one has  *)
(* to give the same.  Replicas live next to each other, between calls on   *)
(* other codecs, in other threads and other processes.  An observation     *)
(* ("look") gives a result of its own that only depends on the calls       *)
(* before it, and leaves the replica where it is.                          *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES at,     \* replica -> number of calls it got
          calls,  \* call number -> its result
          looks   \* <<calls before, what was asked>> -> result

rvars == <<at, calls, looks>>
allvars == <<sc, l, at, calls, looks>>

TInit == TBInit /\ at = <<>> /\ calls = <<>> /\ looks = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Start == Is("start") /\ at' = Put(at, Ev.r, 0) /\ UNCHANGED <<calls, looks>>

Call == /\ Is("call")
        /\ Ev.k = at[Ev.r] + 1
        /\ at' = [at EXCEPT ![Ev.r] = Ev.k]
        /\ Ev.k \in DOMAIN calls => calls[Ev.k] = Ev.res
        /\ calls' = IF Ev.k \in DOMAIN calls THEN calls ELSE Put(calls, Ev.k, Ev.res)
        /\ UNCHANGED looks

Look == /\ Is("look")
        /\ LET key == <<at[Ev.r], Ev.what>>
           IN /\ key \in DOMAIN looks => looks[key] = Ev.res
              /\ looks' = Put(looks, key, Ev.res)
        /\ UNCHANGED <<at, calls>>

(* another codec *)
Other == Is("other") /\ UNCHANGED rvars

TNext == Start \/ Call \/ Look \/ Other \/ (Finished /\ UNCHANGED allvars)

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

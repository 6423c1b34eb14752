------------------------------ MODULE WavTrace ------------------------------
(* Recorded calls on wav codecs are behaviours of WavStream. *)
EXTENDS TraceBase, WavStream

allvars == <<sc, l, wav>>

TInit == TBInit /\ Init

Known(w) == w \in DOMAIN wav /\ ~Unspecified(w)
(* a codec of which nothing is known stays one, whatever the calls return *)
Vague(w) == w \in DOMAIN wav /\ Unspecified(w)

TNext ==
  \/ Is("wnew") /\ New(Ev.w, Ev.rate, Ev.ch)
  \/ Is("wenc") /\ Known(Ev.w) /\ Encode(Ev.w, Ev.x, Ev.ret)
  \/ Is("wdec") /\ Known(Ev.w) /\ Decode(Ev.w, Ev.cap, Ev.fill, Ev.ret, Ev.out)
  \/ Is("wseek") /\ Known(Ev.w) /\ Seek(Ev.w, Ev.whence, Ev.neg, Ev.hi, Ev.lo)
  \/ Is("winfo") /\ Known(Ev.w) /\ Info(Ev.w, Ev.rate, Ev.ch)
  \/ Is("wsize") /\ Known(Ev.w) /\ Size(Ev.w, Ev.ret) /\ Ev.ret = 8 * Ev.bytes
  \/ Is("wsave") /\ Known(Ev.w) /\ Save(Ev.w, Ev.ok, Ev.b)
  \/ Is("wload") /\ Load(Ev.w, Ev.ok, Ev.rate, Ev.ch, Ev.b)
  \/ /\ l <= Len(Scen[sc].ev) /\ Ev.op # "wload"
     /\ Is(Ev.op) /\ Vague(Ev.w) /\ UNCHANGED wav
  \/ Finished /\ UNCHANGED allvars

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

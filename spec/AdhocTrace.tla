---------------------------- MODULE AdhocTrace ----------------------------
(***************************************************************************)
(* Recorded calls on adhoc codecs are behaviours of AdhocStream.           *)
(* Cfg[1] = 1: the samples that come out are compared with the ones that   *)
(* went in (C01, C02); otherwise they only have to be always the same.     *)
(***************************************************************************)
EXTENDS TraceBase, AdhocStream

allvars == <<sc, l, strm, cod, files>>

TInit == TBInit /\ Init

Strict == Cfg[1] = 1

Lvl(c) == strm[cod[c].s].lvl

TEncode ==
  LET n == Whole(Len(Ev.x), cod[Ev.c].ch)
      x == SubSeq(Ev.x, 1, n)
  IN \E known \in {IF Strict /\ Lvl(Ev.c) = 0 THEN Lossless(x) ELSE [i \in 1..n |-> Unknown]} :
       Encode(Ev.c, Ev.x, Ev.ret, known)

(* the error bound, for what a decode returned *)
Bounded ==
  LET k == cod[Ev.c]
      st == strm[k.s]
  IN Strict /\ st.lvl > 0 /\ k.mode # "write" =>
       TRUE = \A i \in 1..Ev.ret : k.pos + i <= Len(st.src) => Within(st.lvl, st.src[k.pos + i], Ev.out[i])

(* C08 *)
Estimate ==
  /\ Ev.ret >= 8 * Ev.bytes
  /\ Ev.ret - 8 * Ev.bytes <= 512 + (8 * Ev.bytes) \div 20
  /\ UNCHANGED vars

(* C29.  a and b got the same audio in the same calls at the same level; if both were new, they have
   the same file, and otherwise a's is as small as b's but for what another dither costs *)
AsSmall(a, b) ==
  /\ strm[cod[a].s].lvl = strm[cod[b].s].lvl
  /\ strm[cod[a].s].src = strm[cod[b].s].src
  /\ strm[cod[a].s].rate = strm[cod[b].s].rate
  /\ strm[cod[a].s].ch = strm[cod[b].s].ch
  /\ Ev.x <= Ev.y + 64 + Ev.y \div 16
  /\ (Ev.new = 1 \/ strm[cod[a].s].lvl = 0) => Ev.x = Ev.y
  /\ Ev.new = 1 => Ev.equal = 1
  /\ UNCHANGED vars

TNext ==
  \/ Is("new") /\ New(Ev.c, Ev.lvl, Ev.rate, Ev.ch)
  \/ Is("bare") /\ New(Ev.c, 0, 0, 0)
  \/ Is("setinfo") /\ SetInfo(Ev.c, Ev.rate, Ev.ch)
  \/ Is("setrate") /\ Ev.ch = cod[Ev.c].ch /\ SetRate(Ev.c, Ev.rate)
  \/ Is("setlvl") /\ SetLevel(Ev.c, Ev.lvl)
  \/ Is("enc") /\ TEncode
  \/ Is("dec") /\ Bounded /\ Decode(Ev.c, Ev.cap, Ev.fill, Ev.ret, Ev.out)
  \/ Is("init") /\ Rewind(Ev.c)
  \/ Is("seek") /\ Seek(Ev.c, Ev.hi, Ev.lo)
  \/ Is("cnt") /\ Count(Ev.c, Ev.ret)
  \/ Is("info") /\ Info(Ev.c, Ev.rate, Ev.ch)
  \/ Is("save") /\ Save(Ev.c, Ev.f, Ev.ok)
  \/ Is("load") /\ Load(Ev.c, Ev.f, Ev.ok, Ev.rate, Ev.ch)
  \/ Is("same") /\ Same(Ev.a, Ev.b)
  \/ Is("like") /\ Like(Ev.a, Ev.b, Within)
  \/ Is("assmall") /\ AsSmall(Ev.a, Ev.b)
  \/ Is("move") /\ Move(Ev.c, Ev.d)
  \/ Is("size") /\ Estimate
  \/ Finished /\ UNCHANGED allvars

(* every event has exactly one outcome, so that a position in a trace determines the state *)
View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

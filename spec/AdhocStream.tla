---------------------------- MODULE AdhocStream ----------------------------
(***************************************************************************)
(* What a user of adhoc codecs sees (C01 to C07).                          *)
(*                                                                         *)
(* strm[s] is the audio of a stream: the interleaved samples that went in  *)
(* (`src`, IEEE bits) and the ones that come out (`out`).  Which samples   *)
(* come out is fixed once they are in, but may not be known until they are *)
(* decoded for the first time (Unknown).  A saved file, the codec that was *)
(* saved and the codecs loaded from it have the same stream.               *)
(*                                                                         *)
(* cod[c] is a codec: its stream, the number of samples before its cursor, *)
(* and what may be called next:                                            *)
(*   "start"  at the beginning: decode, or encode a new stream             *)
(*   "write"  after encode: more encode, nothing is left to decode         *)
(*   "read"   after decode or seek: no encode                              *)
(*   "set"    another info or level was set for a codec with a stream:     *)
(*            encode a new one                                             *)
(***************************************************************************)
EXTENDS Float32, TLC

VARIABLES strm,   \* streams
          cod,    \* codecs
          files   \* saved files -> stream

(* "TRUE = \A .." instead of "\A .." in actions: TLC would take it for a conjunction of actions,
   and recurse once for each element *)
vars == <<strm, cod, files>>

Unknown == 2147483647   \* a NaN, never decoded

Init == strm = <<>> /\ cod = <<>> /\ files = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh == Len(strm) + 1
Whole(n, ch) == (n \div ch) * ch
Total(c) == Len(strm[cod[c].s].src)
Frames(c) == Total(c) \div cod[c].ch

NewStream(lvl, rate, ch) == [lvl |-> lvl, rate |-> rate, ch |-> ch, src |-> <<>>, out |-> <<>>]

New(c, lvl, rate, ch) ==
  LET level == IF lvl > 10 THEN 10 ELSE lvl
  IN /\ strm' = Append(strm, NewStream(level, rate, ch))
     /\ cod' = Put(cod, c, [s |-> Fresh, ch |-> ch, pos |-> 0, mode |-> "start"])
     /\ UNCHANGED files

(* C29: another sample rate and number of channels, or another level, for what is encoded next;
   an existing stream is given up with it.  A codec that has no info yet has rate and ch 0. *)
Configure(c, lvl, rate, ch) ==
  LET k == cod[c]
      level == IF lvl > 10 THEN 10 ELSE lvl
  IN /\ k.mode \in {"start", "set"}
     /\ strm' = Append(strm, NewStream(level, rate, ch))
     /\ cod' = [cod EXCEPT ![c] = [k EXCEPT !.s = Fresh, !.ch = ch, !.pos = 0,
                                   !.mode = IF Total(c) = 0 THEN @ ELSE "set"]]
     /\ UNCHANGED files
SetInfo(c, rate, ch) == Configure(c, strm[cod[c].s].lvl, rate, ch)
(* only another rate: the stream goes on, and a file keeps the rate that it was saved with *)
SetRate(c, rate) ==
  LET k == cod[c]
      shared == (\E f \in DOMAIN files : files[f] = k.s) \/ (\E d \in DOMAIN cod \ {c} : cod[d].s = k.s)
      new == [strm[k.s] EXCEPT !.rate = rate]
  IN /\ k.ch > 0
     /\ strm' = IF shared THEN Append(strm, new) ELSE [strm EXCEPT ![k.s] = new]
     /\ cod' = IF shared THEN [cod EXCEPT ![c] = [k EXCEPT !.s = Fresh]] ELSE cod
     /\ UNCHANGED files
SetLevel(c, lvl) == Configure(c, lvl, strm[cod[c].s].rate, strm[cod[c].s].ch)

(* `known` are the output samples for x, as far as they are known *)
Encode(c, x, ret, known) ==
  LET k == cod[c]
      st == strm[k.s]
      n == Whole(Len(x), k.ch)
      old == k.mode \in {"start", "set"}
      src == (IF old THEN <<>> ELSE st.src) \o SubSeq(x, 1, n)
      out == (IF old THEN <<>> ELSE st.out) \o known
  IN /\ k.mode \in {"start", "write", "set"}
     /\ ret = n
     /\ UNCHANGED files
     /\ IF n = 0 THEN UNCHANGED <<strm, cod>>     \* nothing is encoded, an old stream is kept
        ELSE LET shared == (\E f \in DOMAIN files : files[f] = k.s) \/ (\E d \in DOMAIN cod \ {c} : cod[d].s = k.s)
                 at == IF shared THEN Fresh ELSE k.s
                 new == [st EXCEPT !.src = src, !.out = out]
             IN /\ strm' = IF shared THEN Append(strm, new) ELSE [strm EXCEPT ![k.s] = new]
                /\ cod' = [cod EXCEPT ![c] = [k EXCEPT !.s = at, !.mode = "write", !.pos = Len(src)]]

(* the samples of a call, decided by what is known of them *)
Matches(known, got) == TRUE = \A i \in DOMAIN got : known[i] = Unknown \/ known[i] = got[i]

(* decode into a buffer of cap samples returned ret (0 for None) and left out in the buffer,
   which was filled with `fill` before *)
Decode(c, cap, fill, ret, out) ==
  LET k == cod[c]
      st == strm[k.s]
      left == IF k.mode = "write" THEN 0 ELSE Total(c) - k.pos
      n == Min2(Whole(cap, k.ch), left)
      got == SubSeq(out, 1, n)
      known == SubSeq(st.out, k.pos + 1, k.pos + n)
  IN /\ k.mode # "set"
     /\ ret = n
     /\ Len(out) = cap
     /\ TRUE = \A i \in (n + 1)..cap : out[i] = fill
     /\ Matches(known, got)
     /\ strm' = IF known = got THEN strm
                ELSE [strm EXCEPT ![k.s].out = SubSeq(@, 1, k.pos) \o got \o SubSeq(@, k.pos + n + 1, Len(@))]
     /\ cod' = IF k.mode = "write" THEN cod
               ELSE [cod EXCEPT ![c] = [k EXCEPT !.pos = k.pos + n, !.mode = IF n = 0 THEN @ ELSE "read"]]
     /\ UNCHANGED files

Rewind(c) == /\ cod' = [cod EXCEPT ![c] = [@ EXCEPT !.pos = 0, !.mode = IF @ = "set" THEN @ ELSE "start"]]
             /\ UNCHANGED <<strm, files>>

(* seek to hi * 1000 + lo ms *)
SeekFrame(c, hi, lo) ==
  LET rate == strm[cod[c].s].rate
      frames == Frames(c)
      rest == (rate * lo) \div 1000
  IN \* rate * hi + rate * lo / 1000, without overflow; rates above 2^31 are negative, and streams
     \* with rates above 2147483 are shorter than a ms
     IF rate < 0 \/ rate > 2147483 THEN frames
     ELSE IF rate = 0 \/ hi <= frames \div rate THEN Min2(frames, rate * hi + rest) ELSE frames
Seek(c, hi, lo) ==
  IF hi = 0 /\ lo = 0 THEN Rewind(c)
  ELSE /\ cod[c].mode # "set"
       /\ cod' = [cod EXCEPT ![c] = [@ EXCEPT !.pos = SeekFrame(c, hi, lo) * cod[c].ch, !.mode = "read"]]
       /\ UNCHANGED <<strm, files>>

Count(c, ret) == cod[c].mode # "set" /\ ret = Frames(c) /\ UNCHANGED vars

Info(c, rate, ch) == LET st == strm[cod[c].s] IN rate = st.rate /\ ch = st.ch /\ UNCHANGED vars

Save(c, f, ok) == /\ ok = 1
                  /\ cod[c].mode # "set"
                  /\ files' = Put(files, f, cod[c].s)
                  /\ UNCHANGED <<strm, cod>>

Load(c, f, ok, rate, ch) ==
  LET s == files[f]
  IN /\ ok = 1
     /\ rate = strm[s].rate /\ ch = strm[s].ch
     /\ cod' = Put(cod, c, [s |-> s, ch |-> strm[s].ch, pos |-> 0, mode |-> "start"])
     /\ UNCHANGED <<strm, files>>

(* a and b got the same audio at level 0: they have the same stream, however it was divided
   and whatever was in the codecs before *)
Same(a, b) ==
  LET x == strm[cod[a].s]
      y == strm[cod[b].s]
      both == [i \in DOMAIN x.out |-> IF x.out[i] = Unknown THEN y.out[i] ELSE x.out[i]]
  IN /\ x.src = y.src /\ x.lvl = 0 /\ y.lvl = 0
     /\ Len(x.out) = Len(y.out)
     /\ TRUE = \A i \in DOMAIN x.out : x.out[i] = Unknown \/ y.out[i] = Unknown \/ x.out[i] = y.out[i]
     /\ strm' = Append(strm, [x EXCEPT !.out = both])
     /\ cod' = [cod EXCEPT ![a].s = Fresh, ![b].s = Fresh]
     /\ UNCHANGED files

(* a and b got the same audio at the same level, b in a codec that was never used before: what
   a returns isn't worse than what b returns (by the bound of C02; at level 0 it's the same) *)
Like(a, b, Good(_, _, _)) ==
  LET x == strm[cod[a].s]
      y == strm[cod[b].s]
  IN /\ x.lvl = y.lvl
     /\ x.src = y.src
     /\ Len(x.out) = Len(y.out)
     /\ IF x.lvl = 0
        THEN TRUE = \A i \in DOMAIN x.out : x.out[i] = Unknown \/ y.out[i] = Unknown \/ x.out[i] = y.out[i]
        ELSE (TRUE = \A i \in DOMAIN x.out : Good(x.lvl, x.src[i], y.out[i]))
             => (TRUE = \A i \in DOMAIN x.out : Good(x.lvl, x.src[i], x.out[i]))
     /\ UNCHANGED vars

(* d is given up for the codec c *)
Move(c, d) == cod' = Put(cod, d, cod[c]) /\ UNCHANGED <<strm, files>>

-----------------------------------------------------------------------------
(* C01: what comes out at level 0; what isn't a number may become anything *)
Lossless(x) == [i \in DOMAIN x |-> IF FIsNan(x[i]) THEN Unknown ELSE NormBits(QuantizeBits(x[i]))]

(* not within [-1, 1] *)
Beyond(b) == FExpField(b) > 127 \/ (FExpField(b) = 127 /\ FFrac(b) # 0)

(* C02: |out - in| <= 2^lvl / 32767 + 0.001, in units of 2^-20 with the remainders of the
   conversions allowed for; only for samples within [-1, 1] *)
Fix(b) ==
  LET f == FFromBits(b)
      s == f[2] + 20
  IN IF f[1] = 0 \/ s < -24 THEN 0
     ELSE IF s >= 0 THEN f[1] * P2[s] ELSE Sgn(f[1]) * (Abs(f[1]) \div P2[-s])
Tolerance(lvl) == (P2[lvl] * 32002) \div 1000 + 1049 + 3
Within(lvl, a, b) == Beyond(a) \/ (FIsFinite(b) /\ FExpField(b) < 130 /\ Abs(Fix(a) - Fix(b)) <= Tolerance(lvl))
=============================================================================

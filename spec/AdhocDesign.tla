---------------------------- MODULE AdhocDesign ----------------------------
(***************************************************************************)
(* The design of the adhoc codec: frame headers, a bit stream, and for     *)
(* each channel a predictor that has to have the same history when a       *)
(* sample is decoded as when it was encoded.  Samples are tokens <<stream, *)
(* frame, channel>>; a coded sample carries the history it was predicted   *)
(* from, and decodes to rubbish with any other.  `src`, `pos` and `mode`   *)
(* are what a user sees (AdhocStream); `good` says that every call so far  *)
(* gave what AdhocStream allows.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ch,       \* channels
          Sizes,    \* frames per encode call
          MaxBlocks, MaxFrames, MaxStreams

VARIABLES hdr,    \* frame headers: size, raw start, first bit, history
          hc,     \* number of headers before the cursor
          bits,   \* the bit stream, one entry for each sample
          bc,     \* entries before its cursor
          cs,     \* channels: state, history, decoded samples that weren't handed out
          file,   \* what was saved last
          src, pos, mode, gen, good

ivars == <<hdr, hc, bits, bc, cs>>
vars == <<hdr, hc, bits, bc, cs, file, src, pos, mode, gen, good>>

None == <<"none">>
Rubbish == <<0, 0, 0>>
Blank == <<None, None, None>>     \* the history of a codec that saw nothing
Chans == 1..Ch
NewChannel == [st |-> "init", h |-> Blank, buf |-> <<>>]

Init == /\ hdr = <<>> /\ hc = 0 /\ bits = <<>> /\ bc = 0
        /\ cs = [c \in Chans |-> NewChannel]
        /\ file = <<>>
        /\ src = <<>> /\ pos = 0 /\ mode = "start" /\ gen = 0 /\ good = TRUE

Cut(s, n) == SubSeq(s, 1, n)
Push(h, x) == <<h[2], h[3], x>>
Min2(a, b) == IF a < b THEN a ELSE b
Over(s, at, t) == Cut(s, at) \o t \o SubSeq(s, at + Len(t) + 1, Len(s))

RECURSIVE Coded(_, _, _)
(* entries for the samples x, of which the first `raw` aren't predicted; and the history after *)
Coded(x, raw, h) ==
  IF x = <<>> THEN [bits |-> <<>>, h |-> h, start |-> h]
  ELSE LET rest == Coded(Tail(x), IF raw > 0 THEN raw - 1 ELSE 0, Push(h, x[1]))
           e == IF raw > 0 THEN [x |-> x[1], raw |-> TRUE, h |-> Blank] ELSE [x |-> x[1], raw |-> FALSE, h |-> h]
       IN [bits |-> <<e>> \o rest.bits, h |-> rest.h, start |-> IF raw > 0 THEN rest.start ELSE h]

(* one frame of channel c at the end of what st holds *)
EncodeFrame(st, c, x) ==
  LET k == st.cs[c]
      raw == IF k.st = "init" THEN Min2(3, Len(x)) ELSE 0
      e == Coded(x, raw, k.h)
      head == [size |-> Len(x), init |-> k.st = "init", first |-> st.bc, h |-> e.start]
  IN [hdr |-> Append(Cut(st.hdr, st.hc), head), hc |-> st.hc + 1,
      bits |-> Over(st.bits, st.bc, e.bits), bc |-> st.bc + Len(x),
      cs |-> [st.cs EXCEPT ![c] = [@ EXCEPT !.h = e.h, !.st = IF k.st = "init" /\ raw < 3 THEN "init" ELSE "enc"]]]

RECURSIVE EncodeAll(_, _, _)
EncodeAll(st, c, x) == IF c > Ch THEN st ELSE EncodeAll(EncodeFrame(st, c, x[c]), c + 1, x)

State == [hdr |-> hdr, hc |-> hc, bits |-> bits, bc |-> bc, cs |-> cs]
Become(st) == /\ hdr' = st.hdr /\ hc' = st.hc /\ bits' = st.bits /\ bc' = st.bc /\ cs' = st.cs

RECURSIVE Read(_, _, _, _)
(* n samples from entry `at`, with history h; raw ones first *)
Read(st, n, raw, k) ==
  IF n = 0 THEN k
  ELSE LET at == k.bc
           e == IF at < Len(st.bits) THEN st.bits[at + 1] ELSE [x |-> Rubbish, raw |-> FALSE, h |-> Blank]
           x == IF e.raw = (raw > 0) /\ (raw > 0 \/ e.h = k.h) THEN e.x ELSE Rubbish
       IN Read(st, n - 1, IF raw > 0 THEN raw - 1 ELSE 0,
               [bc |-> at + 1, h |-> Push(k.h, x), out |-> Append(k.out, x)])

DecodeFrame(st, c) ==
  IF st.hc >= Len(st.hdr) THEN st
  ELSE LET k == st.cs[c]
           head == st.hdr[st.hc + 1]
           raw == IF k.st = "init" THEN Min2(3, head.size) ELSE 0
           r == Read(st, head.size, raw, [bc |-> st.bc, h |-> k.h, out |-> <<>>])
       IN [st EXCEPT !.hc = @ + 1, !.bc = r.bc,
             !.cs[c] = [st |-> IF k.st = "init" /\ raw < 3 THEN "init" ELSE "dec",
                        h |-> r.h, buf |-> @.buf \o r.out]]

RECURSIVE DecodeBlock(_, _)
DecodeBlock(st, c) == IF c > Ch THEN st ELSE DecodeBlock(DecodeFrame(st, c), c + 1)

Empty(st) == \A c \in Chans : st.cs[c].buf = <<>>

RECURSIVE Fill(_)
Fill(st) == IF ~Empty(st) \/ st.hc >= Len(st.hdr) THEN st ELSE Fill(DecodeBlock(st, 1))

RECURSIVE Take(_, _)
(* up to n frames *)
Take(st, n) ==
  LET f == Fill(st)
  IN IF n = 0 THEN [st |-> st, out |-> <<>>]
     ELSE IF Empty(f) THEN [st |-> f, out |-> <<>>]
     ELSE LET frame == [c \in Chans |-> IF f.cs[c].buf = <<>> THEN Rubbish ELSE f.cs[c].buf[1]]
              next == [f EXCEPT !.cs = [c \in Chans |-> [f.cs[c] EXCEPT !.buf =
                                          IF @ = <<>> THEN @ ELSE Tail(@)]]]
              r == Take(next, n - 1)
          IN [st |-> r.st, out |-> frame \o r.out]

Rewound(st) == [st EXCEPT !.hc = 0, !.bc = 0, !.cs = [c \in Chans |-> [@[c] EXCEPT !.st = "init", !.buf = <<>>]]]

RECURSIVE Block(_, _, _, _)
(* the block that contains the sample in front of which `want` samples are, and the samples before it *)
Block(st, b, skipped, want) ==
  IF b * Ch >= Len(st.hdr) \/ skipped >= want THEN <<b, skipped>>
  ELSE LET n == st.hdr[b * Ch + 1].size * Ch
       IN IF skipped + n >= want THEN <<b, skipped>> ELSE Block(st, b + 1, skipped + n, want)

RECURSIVE Enter(_, _, _)
(* the channels' frames at header i, with the headers' history *)
Enter(st, i, c) ==
  IF c > Ch THEN st
  ELSE LET head == st.hdr[i + c]
           k == [st |-> IF head.init THEN "init" ELSE "dec", h |-> head.h, buf |-> <<>>]
       IN Enter(DecodeFrame([st EXCEPT !.cs[c] = k], c), i, c + 1)

Sought(st, t) ==
  IF t = 0 THEN Rewound(st)
  ELSE LET r == Rewound(st)
           want == t * Ch
           b == Block(r, 0, 0, want)
           i == b[1] * Ch
       IN IF i >= Len(r.hdr) THEN [r EXCEPT !.hc = i]
          ELSE LET at == [r EXCEPT !.hc = i, !.bc = r.hdr[i + 1].first]
                   e == Enter(at, i, 1)
                   drop == want - b[2]     \* samples
               IN [e EXCEPT !.cs = [c \in Chans |-> [e.cs[c] EXCEPT !.buf =
                                      SubSeq(@, (drop \div Ch) + 1, Len(@))]]]

Loaded(f) == [hdr |-> f.hdr, hc |-> 0, bits |-> f.bits, bc |-> 0, cs |-> [c \in Chans |-> NewChannel]]

-----------------------------------------------------------------------------
Frames == Len(src) \div Ch
FramesOf(f) == Len(f) \div Ch

(* encoding n frames *)
Encode(n) ==
  LET old == mode = "start"
      g == IF old THEN gen + 1 ELSE gen
      had == IF old THEN 0 ELSE Frames
      x == [c \in Chans |-> [i \in 1..n |-> <<g, had + i, c>>]]
      inter == [j \in 1..(n * Ch) |-> <<g, had + 1 + ((j - 1) \div Ch), 1 + ((j - 1) % Ch)>>]
  IN /\ mode \in {"start", "write"}
     /\ n > 0
     /\ g <= MaxStreams /\ had + n <= MaxFrames
     /\ (IF old THEN 0 ELSE Len(hdr)) < MaxBlocks * Ch
     /\ Become(EncodeAll(State, 1, x))
     /\ src' = (IF old THEN <<>> ELSE src) \o inter
     /\ gen' = g /\ mode' = "write" /\ pos' = Len(src')
     /\ UNCHANGED <<file, good>>

Nothing == mode \in {"start", "write"} /\ UNCHANGED vars

Decode(n) ==
  LET r == Take(State, n)
      left == IF mode = "write" THEN 0 ELSE Len(src) - pos
      k == Min2(n * Ch, left)
      want == SubSeq(src, pos + 1, pos + k)
  IN /\ Become(r.st)
     /\ good' = (good /\ r.out = want)
     /\ pos' = pos + k
     /\ mode' = IF mode = "write" \/ k = 0 THEN mode ELSE "read"
     /\ UNCHANGED <<file, src, gen>>

Rewind == /\ Become(Rewound(State))
          /\ pos' = 0 /\ mode' = "start"
          /\ UNCHANGED <<file, src, gen, good>>

Seek(t) == /\ Become(Sought(State, t))
           /\ pos' = Min2(t, Frames) * Ch
           /\ mode' = IF t = 0 THEN "start" ELSE "read"
           /\ UNCHANGED <<file, src, gen, good>>

Count == /\ good' = (good /\ Frames * Ch = (LET S[i \in 0..Len(hdr)] == IF i = 0 THEN 0 ELSE S[i - 1] + hdr[i].size
                                            IN S[Len(hdr)]))
         /\ UNCHANGED <<ivars, file, src, pos, mode, gen>>

Save == /\ file' = <<[hdr |-> hdr, bits |-> bits, src |-> src]>>
        /\ UNCHANGED <<ivars, src, pos, mode, gen, good>>

Load == /\ file # <<>>
        /\ Become(Loaded(file[1]))
        /\ src' = file[1].src /\ pos' = 0 /\ mode' = "start"
        /\ UNCHANGED <<file, gen, good>>

Next == \/ \E n \in Sizes : Encode(n)
        \/ \E n \in 1..MaxFrames : Decode(n)
        \/ Rewind
        \/ \E t \in 0..(Frames + 1) : Seek(t)
        \/ Count \/ Save \/ Load
Spec == Init /\ [][Next]_vars

(* every call gives what a user may expect *)
Good == good
(* the headers tell where the frames are, the lists have the same frame for all channels *)
Shape == /\ Len(hdr) % Ch = 0 /\ hc <= Len(hdr) + Ch
         /\ \A i \in DOMAIN hdr : hdr[i].size = hdr[((i - 1) \div Ch) * Ch + 1].size
         /\ \A i \in DOMAIN hdr : hdr[i].first + hdr[i].size <= Len(bits)
=============================================================================

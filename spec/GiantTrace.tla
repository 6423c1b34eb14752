----------------------------- MODULE GiantTrace -----------------------------
(***************************************************************************)
(* C01, C03 to C06, C08, C12 to C14.  Streams of more than 2^24 samples,   *)
(* adhoc (at level 0) and wav, as runs of equal frames: <<n, samples>> is  *)
(* n frames with these samples (IEEE bits).  gc[c] is a codec: its audio   *)
(* as the runs that come out, and the number of frames before its cursor.  *)
(* gf[f] is a saved file.                                                  *)
(***************************************************************************)
EXTENDS TraceBase, Float32, WavFile

VARIABLES gc, gf

gvars == <<gc, gf>>
allvars == <<sc, l, gc, gf>>

TInit == TBInit /\ gc = <<>> /\ gf = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

RECURSIVE Frames(_), Merge(_), Take(_, _), Drop(_, _)
Frames(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[1] + Frames(Tail(runs))
(* no empty runs, and no two equal ones in a row *)
Merge(runs) ==
  IF runs = <<>> THEN <<>>
  ELSE LET h == Head(runs)
           t == Merge(Tail(runs))
       IN IF h[1] = 0 THEN t
          ELSE IF t # <<>> /\ t[1][2] = h[2] THEN <<<<h[1] + t[1][1], h[2]>>>> \o Tail(t)
          ELSE <<h>> \o t
Take(runs, n) ==
  IF n = 0 \/ runs = <<>> THEN <<>>
  ELSE LET h == Head(runs)
       IN IF h[1] >= n THEN <<<<n, h[2]>>>> ELSE <<h>> \o Take(Tail(runs), n - h[1])
Drop(runs, n) ==
  IF n = 0 \/ runs = <<>> THEN runs
  ELSE LET h == Head(runs)
       IN IF h[1] > n THEN <<<<h[1] - n, h[2]>>>> \o Tail(runs) ELSE Drop(Tail(runs), n - h[1])

(* what comes out for what goes in *)
Coded(runs) == [i \in DOMAIN runs |-> <<runs[i][1], [j \in DOMAIN runs[i][2] |-> NormBits(QuantizeBits(runs[i][2][j]))] \o <<>>>>] \o <<>>

New == /\ Is("gnew")
       /\ gc' = Put(gc, Ev.c, [kind |-> Ev.kind, rate |-> Ev.rate, ch |-> Ev.ch, runs |-> <<>>, pos |-> 0, mode |-> "start"])
       /\ UNCHANGED gf

(* an adhoc codec that was rewound gets a new stream, a wav codec's samples at the cursor are replaced *)
Encode ==
  /\ Is("genc")
  /\ \E x \in {Merge(Coded(Ev.runs))} :
     LET k == gc[Ev.c]
         n == Frames(x)
         runs == IF k.kind = "wav" THEN Take(k.runs, k.pos) \o x \o Drop(k.runs, k.pos + n)
                 ELSE IF k.mode = "start" THEN x ELSE k.runs \o x
     IN /\ k.kind = "wav" \/ k.mode # "read"
        /\ n > 0
        /\ Ev.ret = n * k.ch
        /\ gc' = [gc EXCEPT ![Ev.c] = [k EXCEPT !.runs = Merge(runs), !.mode = "write",
                                                !.pos = IF k.kind = "wav" THEN k.pos + n ELSE Frames(runs)]]
  /\ UNCHANGED gf

(* Ev.calls decodes with buffers of Ev.cap samples *)
Read ==
  /\ Is("gread")
  /\ LET k == gc[Ev.c]
         n == Min2(Ev.calls * (Ev.cap \div k.ch), Frames(k.runs) - k.pos)
     IN /\ Ev.ret = n * k.ch
        /\ Merge(Ev.runs) = Take(Drop(k.runs, k.pos), n)
        /\ gc' = [gc EXCEPT ![Ev.c] = [k EXCEPT !.pos = @ + n, !.mode = IF n = 0 THEN @ ELSE "read"]]
  /\ UNCHANGED gf

Count == Is("gcnt") /\ Ev.ret = Frames(gc[Ev.c].runs) /\ UNCHANGED gvars

Rewind == /\ Is("ginit")
          /\ gc' = [gc EXCEPT ![Ev.c] = [@ EXCEPT !.pos = 0, !.mode = "start"]]
          /\ UNCHANGED gf

(* Ev.hi * 1000 + Ev.lo ms from the start (0), here (1) or the end (2); rates are less than 2147483 *)
Seek ==
  /\ Is("gseek")
  /\ LET k == gc[Ev.c]
         frames == Frames(k.runs)
         from == CASE Ev.whence = 0 -> 0 [] Ev.whence = 1 -> k.pos [] OTHER -> frames
         by == IF Ev.hi > frames \div k.rate THEN frames
               ELSE Min2(frames, k.rate * Ev.hi + (k.rate * Ev.lo) \div 1000)
         to == IF Ev.neg = 1 THEN Max2(0, from - by) ELSE Min2(frames, from + by)
     IN /\ k.kind = "wav" \/ Ev.whence = 0
        /\ gc' = [gc EXCEPT ![Ev.c] = [k EXCEPT !.pos = to,
                                        !.mode = IF Ev.hi = 0 /\ Ev.lo = 0 THEN "start" ELSE "read"]]
  /\ UNCHANGED gf

(* a wav file's length and header are fixed *)
Save ==
  /\ Is("gsave")
  /\ LET k == gc[Ev.c]
     IN /\ Ev.ok = 1
        /\ k.kind = "wav" => /\ Ev.len = 44 + 2 * k.ch * Frames(k.runs)
                             /\ IsHeader(Ev.head, <<k.rate \div 65536, k.rate % 65536>>, k.ch, Ev.len - 44)
        /\ gf' = Put(gf, Ev.f, k)
  /\ UNCHANGED gc

Load ==
  /\ Is("gload")
  /\ LET k == gf[Ev.f]
     IN /\ Ev.ok = 1 /\ Ev.rate = k.rate /\ Ev.ch = k.ch
        /\ gc' = Put(gc, Ev.c, [k EXCEPT !.pos = 0, !.mode = "start"])
  /\ UNCHANGED gf

(* C08, in bytes: the estimate isn't less than the file, and more only by 5 % and 64 bytes; exact for wav *)
Size ==
  /\ Is("gsize")
  /\ Ev.bits \in 0..7
  /\ IF gc[Ev.c].kind = "wav" THEN Ev.ret = Ev.bytes /\ Ev.bits = 0 /\ Ev.bytes = 44 + 2 * gc[Ev.c].ch * Frames(gc[Ev.c].runs)
     ELSE Ev.ret >= Ev.bytes /\ Ev.ret - Ev.bytes <= 64 + Ev.bytes \div 20
  /\ UNCHANGED gvars

TNext == New \/ Encode \/ Read \/ Count \/ Rewind \/ Seek \/ Save \/ Load \/ Size \/ (Finished /\ UNCHANGED allvars)

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

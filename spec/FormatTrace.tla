---------------------------- MODULE FormatTrace ----------------------------
(***************************************************************************)
(* Checks recorded files.  The events of a scenario:                       *)
(*   file  the bytes of a file, what the library says about it, and the    *)
(*         samples it decodes from it; followed by silent steps that       *)
(*         decode one frame each                                           *)
(* Cfg[1] = 1: layout and samples (C10), 2: costs of the frames (C11)      *)
(* Cfg[2] = 1: the library wrote the file, 0: it was made independently    *)
(***************************************************************************)
EXTENDS TraceBase, Format

VARIABLES data,  \* the bytes of the file being decoded
          lay,     \* the layout of the file being decoded
          fr,     \* next frame
          bp,     \* next bit
          chs,    \* per channel: history, whether the next frame starts with raw codes
          got,   \* per channel: samples decoded so far (of blocks before)
          at     \* interleaved samples compared so far

fvars == <<data, lay, fr, bp, chs, got, at>>
allvars == <<sc, l, data, lay, fr, bp, chs, got, at>>

None == [ok |-> FALSE]

TInit == TBInit /\ data = <<>> /\ lay = None /\ fr = 0 /\ bp = 0 /\ chs = <<>> /\ got = <<>> /\ at = 0

Samples == Cfg[1] = 1
Own == Cfg[2] = 1

(* the file is opened *)
Open ==
  /\ l <= Len(Scen[sc].ev) /\ Ev.st = "ok" /\ Ev.op = "file" /\ ~lay.ok
  /\ LET x == Layout(Ev.b)
     IN /\ x.ok
        /\ data' = Ev.b
        /\ lay' = x
        /\ Samples => Ev.ok = 1 /\ Ev.rate = x.rate /\ Ev.ch = x.ch
        /\ Own => x.lvl = Ev.lvl
        /\ chs' = [c \in 1..x.ch |-> [h |-> <<>>, fresh |-> TRUE]]
        /\ got' = [c \in 1..x.ch |-> <<>>]
  /\ fr' = 0 /\ bp' = 0 /\ at' = 0
  /\ UNCHANGED <<sc, l>>

(* bits of a frame's residuals are no more than with any exponent *)
Cheapest(s, used, k) ==
  /\ k \in 1..15
  /\ Len(s.res) > 0 => TRUE = \A e \in 1..15 : used <= Cost(s.res, e)

(* n samples of each channel are what the library decoded *)
Block(all, n) ==
  LET k == lay.ch
      lvl == lay.lvl
      a == at
  IN /\ a + n * k <= Len(Ev.out)
     /\ SubSeq(Ev.out, a + 1, a + n * k)
          = [j \in 1..(n * k) |-> Sample(all[1 + ((j - 1) % k)][1 + ((j - 1) \div k)], lvl)]

(* a frame of channel c, from 1 *)
NextFrame ==
  /\ lay.ok /\ fr < lay.frames
  \* "\E s \in {..}" evaluates the frame once; TLC evaluates a LET at each use
  /\ LET c == 1 + (fr % lay.ch)
         fresh == chs[c].fresh
         raw == IF fresh THEN 16 * Min2(3, Size(data, lay, fr)) ELSE 0
     IN \E s \in {Frame(data, lay, fr, bp, chs[c].h, fresh)} :
        /\ bp' = s.p
        /\ s.p <= lay.bits
        /\ chs' = [chs EXCEPT ![c] = [h |-> s.h, fresh |-> fresh /\ Len(s.codes) < 3]]
        /\ got' = [got EXCEPT ![c] = s.codes]
        /\ IF Samples
           THEN /\ FirstBit(data, lay, fr) = bp
                /\ Starts(data, lay, fr) = fresh
                /\ fresh \/ History(data, lay, fr) = chs[c].h
                /\ c = 1 \/ Len(s.codes) = Len(got[1])
                \* a complete block gives the next samples
                /\ c = lay.ch =>
                     \E all \in {[got EXCEPT ![c] = s.codes]} : Block(all, Len(s.codes))
           ELSE Cheapest(s, s.p - bp - raw, Exponent(data, lay, fr))
        /\ at' = IF c = lay.ch THEN at + Len(s.codes) * lay.ch ELSE at
  /\ fr' = fr + 1
  /\ UNCHANGED <<sc, l, data, lay>>

Close ==
  /\ lay.ok /\ fr = lay.frames
  /\ IF Samples THEN at = Len(Ev.out)
     ELSE \* the file is no larger than the headers and the frames
          Own => 8 * (Len(data) - lay.head) <= bp + 512
  /\ l' = l + 1 /\ lay' = None
  /\ UNCHANGED <<sc, data, fr, bp, chs, got, at>>

TNext == Open \/ NextFrame \/ Close \/ (Finished /\ UNCHANGED allvars)

View == <<sc, l, lay.ok, fr>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================

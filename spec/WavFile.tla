------------------------------ MODULE WavFile ------------------------------
(***************************************************************************)
(* RIFF/WAVE files as sequences of bytes.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

U16At(b, i) == b[i] + 256 * b[i + 1]
I16At(b, i) == LET u == U16At(b, i) IN IF u > 32767 THEN u - 65536 ELSE u
U32Halves(b, i) == <<U16At(b, i + 2), U16At(b, i)>>
(* numbers too large for a file become Huge *)
Huge == 536870912
U32At(b, i) == LET h == U32Halves(b, i) IN IF h[1] >= 8192 THEN Huge ELSE h[1] * 65536 + h[2]

Tag(b, i, t) == i + 3 <= Len(b) /\ b[i] = t[1] /\ b[i + 1] = t[2] /\ b[i + 2] = t[3] /\ b[i + 3] = t[4]
RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT  == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>

Le16(n) == <<n % 256, (n \div 256) % 256>>
Le32(n) == Le16(n % 65536) \o Le16(n \div 65536)

(* codes of 8-bit files *)
Near == 1000000
(* a code that may be any, until it is seen *)
Anything == Near + 256
(* c may be the 16-bit code of an 8-bit value: within one 8-bit step of it *)
Stands(stored, c) == stored = Anything \/
  LET d == c - 256 * (stored - Near - 128)
  IN c \in -32768..32767 /\ d <= 256 /\ d >= -256

-----------------------------------------------------------------------------
(* what saving writes: n bytes of audio at rate (<<high, low>> 16 bits), in ch <= 32767 channels.  The
   rate in bytes is rate * ch * 2, computed in two halves; nothing is said of it when it exceeds its field. *)
ByteRate(rate, ch) ==
  LET low == rate[2] * ch
      high == rate[1] * ch
      h == IF high >= 32768 THEN 65536 ELSE 2 * high + low \div 32768
  IN <<h, 2 * (low % 32768)>>
IsHeader(h, rate, ch, n) ==
  LET bytes == ByteRate(rate, ch)
  IN /\ Len(h) = 44
     /\ SubSeq(h, 1, 28) = RIFF \o Le32(36 + n) \o WAVE \o FMT \o Le32(16) \o Le16(1) \o Le16(ch) \o Le16(rate[2]) \o Le16(rate[1])
     /\ bytes[1] < 65536 => SubSeq(h, 29, 32) = Le16(bytes[2]) \o Le16(bytes[1])
     /\ SubSeq(h, 33, 44) = Le16(ch * 2) \o Le16(16) \o DATA \o Le32(n)

IsCanonical(b, rate, ch, data) ==
  /\ Len(b) = 44 + 2 * Len(data)
  /\ IsHeader(SubSeq(b, 1, 44), rate, ch, 2 * Len(data))
  /\ TRUE = \A i \in DOMAIN data :
       IF data[i] >= Near THEN Stands(data[i], I16At(b, 43 + 2 * i)) ELSE I16At(b, 43 + 2 * i) = data[i]

-----------------------------------------------------------------------------
(* The chunks of a file: from byte i on, the fmt and the first data chunk.  i counts from 1.  0 where
   there is none; -1 when the file ends inside of a chunk before the data. *)
RECURSIVE Chunks(_, _, _, _)
Chunks(b, i, fmt, depth) ==
  IF i > Len(b) THEN [fmt |-> fmt, data |-> 0]
  ELSE IF i + 7 > Len(b) \/ depth > 40 THEN [fmt |-> fmt, data |-> -1]
  ELSE LET n == U32At(b, i + 4)
       IN IF Tag(b, i, DATA) THEN [fmt |-> fmt, data |-> i]
          ELSE IF i + 7 + n > Len(b) THEN [fmt |-> fmt, data |-> -1]
          ELSE IF fmt # 0 /\ Tag(b, i, FMT) THEN [fmt |-> fmt, data |-> -1]   \* which one counts?
          ELSE Chunks(b, i + 8 + n + (n % 2), IF fmt = 0 /\ Tag(b, i, FMT) THEN i ELSE fmt, depth + 1)

Any == [kind |-> "any"]
Refuse == [kind |-> "refuse"]

(* an extensible format chunk has the encoding at the start of a longer tail *)
MayBePcm(b, fmt) == U32At(b, fmt + 4) >= 40 /\ U16At(b, fmt + 32) = 1

(* "read": has to be read, with this result; "refuse": has to be refused; "any": nothing is
   promised but that nobody panics *)
Parse(b) ==
  IF ~(Tag(b, 1, RIFF) /\ Tag(b, 9, WAVE)) THEN Any
  ELSE LET c == Chunks(b, 13, 0, 0)
       IN IF c.fmt = 0 THEN (IF c.data = 0 THEN Refuse ELSE Any)
          ELSE IF U32At(b, c.fmt + 4) < 16 THEN Any
          ELSE LET format == U16At(b, c.fmt + 8)
                   ch == U16At(b, c.fmt + 10)
                   depth == U16At(b, c.fmt + 22)
               IN IF c.data = 0 THEN Refuse
                  ELSE IF c.data < 0 \/ ch > 32767 \/ (format = 65534 /\ MayBePcm(b, c.fmt)) THEN Any
                  ELSE IF format # 1 \/ ch = 0 \/ depth \notin {8, 16} THEN Refuse
                  ELSE LET n == U32At(b, c.data + 4)
                           first == c.data + 8
                       IN IF c.data > 248 \/ first - 1 + n > Len(b) \/ (n = 0 /\ first <= Len(b)) THEN Any
                          ELSE [kind |-> "read", rate |-> U32Halves(b, c.fmt + 12), ch |-> ch,
                                data |-> IF depth = 16 THEN [i \in 1..(n \div 2) |-> I16At(b, first + 2 * i - 2)]
                                         ELSE [i \in 1..n |-> Near + b[first + i - 1]]]
=============================================================================

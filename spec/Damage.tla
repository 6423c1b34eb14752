------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Ways to damage an adhoc file (C09): a file of one of several shapes, in *)
(* which up to Max fields of the format get a wrong value, or that ends    *)
(* too early or goes on too long.  Every combination is one behaviour; TLC *)
(* prints it as a script for the harness.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Max,      \* damaged fields
          Bases     \* number of file shapes

(* the fields of the format in the order of the file *)
Fields == 0..25
(*  0 level            1 length of exponents   2 number of frames
    3 length of flags  4 number of flags       5 ... its upper half
    6 length of sizes  7 first size            8 last size
    9 length of starts 10 first start         11 last start   12 ... its upper half
   13 length of histories 14 a history        15 frame cursor
   16 info tag        17 rate                 18 channels
   19 length of bits  20 bit cursor           21 number of bits  22 ... its upper half
   23 all frame counts at once    24 a byte of the exponents     25 a byte of the bits *)

(* 0: zero, 1: one, 2: all ones, 3: plus one, 4: minus one, 5: twice, 6: 2^31, 7: 11, 8: 2^16,
   9: plus the number of channels, 10: minus the number of channels,
   11: the number of bits in the stream *)
Values == 0..11

(* lists that lose or gain elements, in a file that is consistent but for that:
   0 exponents, 1 flags, 2 sizes, 3 starts, 4 histories, 5 bits;
   to 0: nothing, 1: one less, 2: one more, 3: twice as many, 4: one *)
Lists == 0..5
Lengths == 0..4
IsList(f) == f[1] >= 100

(* where the file is cut: after a field, or inside of it *)
Cuts == 0..25

VARIABLES base, faults, cut, done

Init == base \in 0..(Bases - 1) /\ faults = <<>> /\ cut = -1 /\ done = FALSE

(* in increasing order of fields, so that every set of faults is made once *)
Break == /\ ~done /\ cut < 0 /\ Len(faults) < Max
         /\ \E f \in Fields, v \in Values :
              /\ Len(faults) > 0 => f > faults[Len(faults)][1]
              /\ faults' = Append(faults, <<f, v>>)
         /\ UNCHANGED <<base, cut, done>>

Resize == /\ ~done /\ cut < 0 /\ Len(faults) < 2
          /\ \A i \in DOMAIN faults : IsList(faults[i])
          /\ \E f \in Lists, v \in Lengths :
               /\ Len(faults) > 0 => 100 + f > faults[Len(faults)][1]
               /\ faults' = Append(faults, <<100 + f, v>>)
          /\ UNCHANGED <<base, cut, done>>

Cut == /\ ~done /\ cut < 0 /\ faults = <<>>
       /\ \E f \in Cuts, in \in 0..1 : cut' = 2 * f + in
       /\ UNCHANGED <<base, faults, done>>

Fault(f) == IF IsList(f) THEN ";list " \o ToString(f[1] - 100) \o " " \o ToString(f[2])
            ELSE ";set " \o ToString(f[1]) \o " " \o ToString(f[2])
Text(fs) == IF Len(fs) = 0 THEN ""
            ELSE IF Len(fs) = 1 THEN Fault(fs[1])
            ELSE Fault(fs[1]) \o Fault(fs[2])

Stop == /\ ~done /\ done' = TRUE
        /\ PrintT("S|" \o ToString(base) \o Text(faults) \o (IF cut >= 0 THEN ";cut " \o ToString(cut) ELSE ""))
        /\ UNCHANGED <<base, faults, cut>>

Next == Break \/ Resize \/ Cut \/ Stop
Spec == Init /\ [][Next]_<<base, faults, cut, done>>
=============================================================================

------------------------------- MODULE CliGen -------------------------------
(* Command lines: up to Most inputs of various kinds, threads, -c, the directories. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Most
VARIABLES inputs, done

Kinds == {"wav", "wav8", "stereo", "empty", "adhoc", "dots", "badwav", "badadhoc", "missing", "dir", "text", "old"}
Init == inputs = <<>> /\ done = FALSE
More == /\ ~done /\ Len(inputs) < Most
        /\ \E k \in Kinds : inputs' = Append(inputs, k)
        /\ UNCHANGED done
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE " " \o s[1] \o Text(Tail(s))
Stop == /\ ~done /\ Len(inputs) > 0 /\ done' = TRUE
        /\ \E threads \in {1, 2, 8}, c \in {"-", "0", "10", "11"} :
             PrintT("S|" \o ToString(threads) \o " " \o c \o Text(inputs))
        /\ UNCHANGED inputs
Next == More \/ Stop
Spec == Init /\ [][Next]_<<inputs, done>>
=============================================================================

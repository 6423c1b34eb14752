---------------------------- MODULE AdhocSetupGen ----------------------------
(***************************************************************************)
(* C29.  All short histories in which a codec gets its info and its level, *)
(* from the beginning or between streams: i<n> with_info, s<n> set_info    *)
(* (of the n-th info), l<n> the n-th level, e encode, r rewind, d decode.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Infos, Levels, Most
VARIABLES info, held, at, h

GInit == info = 0 /\ held = FALSE /\ at = "start" /\ h = ""
Op(s) == h' = h \o " " \o s
GNext ==
  /\ Len(h) < 3 * Most
  /\ \/ /\ at \in {"start", "set"}
        /\ \E n \in Infos : info' = n /\ \E s \in {"i", "s"} : Op(s \o ToString(n))
        /\ at' = (IF held THEN "set" ELSE at) /\ UNCHANGED held
     \/ /\ at \in {"start", "set"}
        /\ \E n \in Levels : Op("l" \o ToString(n))
        /\ at' = (IF held THEN "set" ELSE at) /\ UNCHANGED <<info, held>>
     \/ /\ info # 0 /\ at # "read" /\ Op("e0")
        /\ held' = TRUE /\ at' = "write" /\ UNCHANGED info
     \/ /\ at \in {"write", "read"} /\ Op("r0")
        /\ at' = "start" /\ UNCHANGED <<info, held>>
     \/ /\ at = "start" /\ held /\ Op("d0")
        /\ at' = "read" /\ UNCHANGED <<info, held>>
GSpec == GInit /\ [][GNext]_<<info, held, at, h>>

(* only histories that end with a stream *)
Emit == IF Len(h) = 3 * Most /\ held THEN PrintT("S|" \o h) ELSE TRUE
=============================================================================

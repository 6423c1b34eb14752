------------------------------ MODULE CliPool ------------------------------
(***************************************************************************)
(* The design of the tool: workers take inputs in any order and convert    *)
(* each in steps (read, create the output, write it).  Whatever the        *)
(* number of workers and the schedule, the directory ends up with one      *)
(* complete output for each valid input, and nothing else.                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Inputs,    \* numbers
          Workers
VARIABLES kind,      \* of each input: "good", "bad" (can't be loaded), "missing"
          dir,       \* output directory: input -> "none", "empty", "full"
          todo, job, at

vars == <<kind, dir, todo, job, at>>
None == 0

Init == /\ kind \in [Inputs -> {"good", "bad", "missing"}]
        /\ dir = [i \in Inputs |-> "none"]
        /\ todo = Inputs
        /\ job = [w \in Workers |-> None]
        /\ at = [w \in Workers |-> "idle"]

Pick(w) == /\ at[w] = "idle"
           /\ \E i \in todo : /\ todo' = todo \ {i}
                              /\ job' = [job EXCEPT ![w] = i]
           /\ at' = [at EXCEPT ![w] = "read"]
           /\ UNCHANGED <<kind, dir>>
Read(w) == /\ at[w] = "read"
           /\ at' = [at EXCEPT ![w] = IF kind[job[w]] = "good" THEN "create" ELSE "idle"]
           /\ UNCHANGED <<kind, dir, todo, job>>
Create(w) == /\ at[w] = "create"
             /\ dir' = [dir EXCEPT ![job[w]] = "empty"]
             /\ at' = [at EXCEPT ![w] = "write"]
             /\ UNCHANGED <<kind, todo, job>>
Write(w) == /\ at[w] = "write"
            /\ dir' = [dir EXCEPT ![job[w]] = "full"]
            /\ at' = [at EXCEPT ![w] = "idle"]
            /\ UNCHANGED <<kind, todo, job>>

Next == \E w \in Workers : Pick(w) \/ Read(w) \/ Create(w) \/ Write(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == todo = {} /\ \A w \in Workers : at[w] = "idle"
Result == Over => dir = [i \in Inputs |-> IF kind[i] = "good" THEN "full" ELSE "none"]
OnlyGood == \A i \in Inputs : dir[i] # "none" => kind[i] = "good"
Ends == <>Over
=============================================================================

------------------------------- MODULE Handles -------------------------------
(***************************************************************************)
(* Reading the files on disk (the local option): a reader opens a file,    *)
(* reads it and gives its handle back.  There are only so many handles     *)
(* (Limit), at least one for each reader; so every read succeeds, however  *)
(* many there were before.  With Leaks (handles are kept after the read)   *)
(* the reads fail once there were Limit of them.                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Readers, Limit, MaxReads, Leaks
VARIABLES state,    \* reader -> "idle" | "reading"
          held,     \* the number of handles that are open
          reads,    \* the number of reads that were begun
          failed    \* a read found no handle
vars == <<state, held, reads, failed>>
Init == state = [r \in Readers |-> "idle"] /\ held = 0 /\ reads = 0 /\ failed = FALSE
Open(r) == /\ state[r] = "idle" /\ reads < MaxReads /\ reads' = reads + 1
           /\ IF held < Limit
              THEN state' = [state EXCEPT ![r] = "reading"] /\ held' = held + 1 /\ UNCHANGED failed
              ELSE failed' = TRUE /\ UNCHANGED <<state, held>>
Done(r) == /\ state[r] = "reading" /\ state' = [state EXCEPT ![r] = "idle"]
           /\ held' = IF Leaks THEN held ELSE held - 1
           /\ UNCHANGED <<reads, failed>>
Next == \E r \in Readers : Open(r) \/ Done(r)
Spec == Init /\ [][Next]_vars
Succeeds == ~failed
GivenBack == held = Cardinality({ r \in Readers : state[r] = "reading" })
=============================================================================

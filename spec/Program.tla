------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* One run of a calendar command: the dates are read, the calendar is      *)
(* made, and its text goes to the output file or else is printed.          *)
(*                                                                         *)
(* What the run was given: whether the two dates are valid, and the output *)
(* file: "none" (not given), "new" (there is none of that name), "old"     *)
(* (there is one), "nodir" (its directory does not exist), "dir" (it is a  *)
(* directory), "full" (it can be opened and takes nothing).                *)
(***************************************************************************)
EXTENDS Naturals

Outputs == {"none", "new", "old", "nodir", "dir", "full"}
Given == [from : BOOLEAN, to : BOOLEAN, out : Outputs]
(* what is at the place of the output file before the run *)
Before(g) == CASE g.out = "old" -> "old" [] g.out = "dir" -> "dir" [] OTHER -> "absent"
Opens(g) == g.out \in {"new", "old", "full"}

(* How it ends.  "text": the text of the calendar, whole and nothing else. *)
Exit(g) == IF g.from /\ g.to /\ g.out \in {"none", "new", "old"} THEN 0 ELSE 1
Disk(g) == IF Exit(g) = 0 /\ g.out # "none" THEN "text" ELSE Before(g)
Printed(g) == Exit(g) = 0 /\ g.out = "none"

VARIABLES given, pc, disk, printed, exit
pvars == <<given, pc, disk, printed, exit>>

PInit == /\ given \in Given
         /\ pc = "from" /\ disk = Before(given) /\ printed = FALSE /\ exit = 99
Fail == pc' = "end" /\ exit' = 1 /\ UNCHANGED <<given, disk, printed>>
Go(p) == pc' = p /\ UNCHANGED <<given, disk, printed, exit>>
ReadFrom == pc = "from" /\ IF given.from THEN Go("to") ELSE Fail
ReadTo == pc = "to" /\ IF given.to THEN Go("make") ELSE Fail
Make == pc = "make" /\ Go(IF given.out = "none" THEN "print" ELSE "open")
Print == /\ pc = "print" /\ printed' = TRUE /\ pc' = "end" /\ exit' = 0
         /\ UNCHANGED <<given, disk>>
Open == /\ pc = "open"
        /\ IF Opens(given)
           THEN /\ pc' = "write" /\ disk' = IF given.out = "full" THEN disk ELSE "empty"
                /\ UNCHANGED <<given, printed, exit>>
           ELSE Fail
Write == /\ pc = "write"
         /\ IF given.out = "full" THEN Fail
            ELSE /\ disk' = "text" /\ pc' = "end" /\ exit' = 0
                 /\ UNCHANGED <<given, printed>>
End == pc = "end" /\ UNCHANGED pvars
PNext == ReadFrom \/ ReadTo \/ Make \/ Print \/ Open \/ Write \/ End
PSpec == PInit /\ [][PNext]_pvars /\ WF_pvars(PNext)

TypeOK == /\ given \in Given /\ exit \in {0, 1, 99} /\ printed \in BOOLEAN
          /\ disk \in {"absent", "old", "dir", "empty", "text"}
EndsSo == pc = "end" => exit = Exit(given) /\ disk = Disk(given) /\ printed = Printed(given)
(* an old file is given up only for a calendar that is there already       *)
OldIsSafe == (given.out = "old" /\ ~(given.from /\ given.to)) => disk = "old"
OnePlace == pc = "end" /\ exit = 0 => (printed /\ disk = Before(given)) \/ (~printed /\ disk = "text")
NothingOnFailure == pc = "end" /\ exit = 1 => ~printed /\ disk = Before(given)
Ends == <>(pc = "end")
=============================================================================

-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* The local option: what is read is what is on disk, under the working    *)
(* directory, at the time of the read.  Others write and remove the files, *)
(* and the program changes its directory.  The embedded copies are what    *)
(* they were.  With Remembers (a read keeps what it got for the next one)  *)
(* readers are given what is there no more.                                *)
(***************************************************************************)
EXTENDS Naturals
CONSTANTS Dirs, Files, MaxSteps, Remembers
VARIABLES cwd,      \* the working directory
          disk,     \* directory and file -> the version there; 0: no file
          got,      \* file -> the version remembered, if any
          last,     \* the last read: <<local, file, version>>
          steps
vars == <<cwd, disk, got, last, steps>>
Embedded == 100
Nothing == 200
Init == /\ cwd \in Dirs /\ disk = [d \in Dirs |-> [f \in Files |-> 1]]
        /\ got = [f \in Files |-> Nothing] /\ last = <<>> /\ steps = 0
Put(d, f, v) == disk' = [disk EXCEPT ![d][f] = v] /\ last' = <<>> /\ UNCHANGED <<cwd, got>>
Cd(d) == cwd' = d /\ last' = <<>> /\ UNCHANGED <<disk, got>>
OnDisk(f) == disk[cwd][f]
Read(local, f) ==
    LET v == IF ~local THEN Embedded
             ELSE IF Remembers /\ got[f] # Nothing THEN got[f] ELSE OnDisk(f)
    IN  /\ last' = <<local, f, v>>
        /\ got' = IF local /\ Remembers THEN [got EXCEPT ![f] = v] ELSE got
        /\ UNCHANGED <<cwd, disk>>
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E d \in Dirs : Cd(d) \/ \E f \in Files, v \in 0..2 : Put(d, f, v)
           \/ \E f \in Files, local \in BOOLEAN : Read(local, f)
Spec == Init /\ [][Next]_vars
Current == last # <<>> => last[3] = IF last[1] THEN OnDisk(last[2]) ELSE Embedded
=============================================================================

----------------------------- MODULE EmbedTrace -----------------------------
(***************************************************************************)
(* Recorded reads of the embedded data by concurrent readers, checked      *)
(* against Embed.  A line is the call of a reader or the return of one,    *)
(* in the order of a counter taken just before and just after the call;    *)
(* the unpacking in between is not recorded and is inserted when a return  *)
(* needs it.  The files on disk, which the local option reads, are written *)
(* and removed between reads, and the working directory changes (Disk).    *)
(***************************************************************************)
EXTENDS Embed, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
World == JsonDeserialize(IOEnv.WORLD)
TraceReaders == { Trace[i].g : i \in DOMAIN Trace }
TraceFiles == DOMAIN World.files
TraceNames == { Trace[i].name : i \in DOMAIN Trace }
TraceMax == Len(Trace)
TraceDirs == { World.dirs[i] : i \in DOMAIN World.dirs }

(* the directories, by their base names *)
Directories == ("/" :> "") @@ ("/data" :> "data") @@ ("/data/astro" :> "astro")

VARIABLES l, cwd, disk, got, last
D == INSTANCE Disk WITH Dirs <- TraceDirs, Files <- TraceFiles, MaxSteps <- TraceMax, Remembers <- FALSE, steps <- 0
disks == <<cwd, disk, got, last>>
Gone == [sha |-> "", size |-> -1]
Line == Trace[l]
More == l <= Len(Trace)

CallLine == More /\ Line.ev = "call" /\ Call(Line.g, Line.name) /\ l' = l + 1 /\ UNCHANGED disks

PutLine == /\ More /\ Line.ev = "put" /\ l' = l + 1 /\ UNCHANGED vars
           /\ D!Put(Line.dir, Line.name, [sha |-> Line.sha, size |-> Line.size])
CdLine == More /\ Line.ev = "cd" /\ l' = l + 1 /\ UNCHANGED vars /\ D!Cd(Line.dir)

(* What a reader must have got: the whole file, as every route shows it. *)
Got(r) ==
    LET n == call[Line.g] IN
    IF n \in Files
    THEN LET f == IF Line.local THEN D!OnDisk(n) ELSE World.files[n] IN
         /\ Line.panic = ""
         /\ IF f.size = Gone.size THEN r.res = "absent"
            ELSE /\ r.res = "content" /\ r.sha = f.sha /\ r.size = f.size
                 /\ Line.route \in {"FS", "Dir"} =>
                       r.stsize = r.size /\ ~r.stdir /\ r.stname = World.files[n].base
    ELSE IF n \in DOMAIN Directories
    THEN /\ Line.panic = "" /\ r.res = "content" /\ r.size = 0
         /\ r.stsize = 0 /\ r.stdir /\ r.stname = Directories[n]
    ELSE Line.panic = "" /\ r.res = "absent"
RetLine == /\ More /\ Line.ev = "ret" /\ Got(Line.r) /\ Return(Line.g) /\ l' = l + 1
           /\ IF call[Line.g] \in Files THEN D!Read(Line.local, call[Line.g]) ELSE UNCHANGED disks

\* a return that needs a file which is not yet whole
Needs(f) == More /\ Line.ev = "ret" /\ call[Line.g] = f /\ f \in Files /\ store[f] # "whole"
Unpack == \E f \in {call[Line.g]} :
            Needs(f) /\ (Begin(Line.g) \/ Finish(f)) /\ UNCHANGED <<l, disks>>

TraceInit == /\ Init /\ l = 1 /\ cwd = World.dirs[1]
             /\ disk = [d \in TraceDirs |->
                          [f \in Files |-> [sha |-> World.files[f].lsha, size |-> World.files[f].lsize]]]
             /\ got = <<>> /\ last = <<>>
TraceNext == More /\ (CallLine \/ RetLine \/ Unpack \/ PutLine \/ CdLine)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, disks>>

Seen == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
TraceAccepted ==
    IF TLCGet(1) = Len(Trace) + 1 THEN TRUE
    ELSE PrintT("REJECTED " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================

---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Recorded sessions, checked against History: first every call in a       *)
(* process of its own, then the sessions, then calls made concurrently.    *)
(* A crash, a hang or a data race is a line which nothing here explains.   *)
(***************************************************************************)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Line == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Line.ev = e /\ l' = l + 1
Restart == IsEvent("restart") /\ cfg' = "none" /\ UNCHANGED memo
Config == IsEvent("config") /\ SetConfig(Line.c)
Obs == IsEvent("obs") /\ Observe(Line.key, Line.res)
TraceInit == HInit /\ l = 1
TraceNext == Restart \/ Config \/ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, l>>
TraceAccepted ==
    LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("REJECTED " \o ToString(d)) /\ FALSE
=============================================================================

------------------------------ MODULE DayEntry ------------------------------
(***************************************************************************)
(* One calendar day and what is put on it.  A day holds at most one        *)
(* uposatha, one half moon and one astronomical moon (the last one put     *)
(* wins), and any number of major events and events, in order of arrival.  *)
(* Adding an event dates the day; setting a moon does not.                 *)
(*                                                                         *)
(* An item is a record with (at least) its kind t, one of "u" "h" "a" "m"  *)
(* "e", and its date d.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

EmptyDay(d) == [d |-> d, u |-> <<>>, h |-> <<>>, a |-> <<>>, m |-> <<>>, e |-> <<>>]

PutItem(c, it) ==
    CASE it.t = "u" -> [c EXCEPT !.u = <<it>>]
      [] it.t = "h" -> [c EXCEPT !.h = <<it>>]
      [] it.t = "a" -> [c EXCEPT !.a = <<it>>]
      [] it.t = "m" -> [c EXCEPT !.m = Append(@, it)]
      [] it.t = "e" -> [c EXCEPT !.e = Append(@, it)]

AddItem(c, it) == [PutItem(c, it) EXCEPT !.d = it.d]

(* AddHalfMoonDays: the days as they were, then one day eight days after   *)
(* each New Moon or Full Moon uposatha, with its half moon.                *)
HalfOf(p) == IF p = "new" THEN "waxing" ELSE "waning"
HalfDays(days, Plus8(_)) ==
    LET S == SelectSeq(days, LAMBDA x : x.u # <<>> /\ x.u[1].ph \in {"new", "full"})
    IN  [i \in DOMAIN S |->
           [EmptyDay(Plus8(S[i].d)) EXCEPT
              !.h = << [t |-> "h", d |-> Plus8(S[i].d), ph |-> HalfOf(S[i].u[1].ph)] >>]]
=============================================================================

------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The events of the calendar: uposathas, half moons, observances, derived *)
(* from the succession of uposathas; the listing of a solar year, and the  *)
(* days of a date range.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Lunar, Uposatha

(* All uposathas from Kattika(first) up to the end of lunar year last. *)
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(u, ce, last, ex) ==
    IF u.mon = 12 /\ u.phase = "full" /\ ce = last THEN <<>>
    ELSE LET nce == IF u.mon = 12 /\ u.phase = "full" THEN ce + 1 ELSE ce
             n == NextUposatha(u, Kind(nce, ex))
         IN  <<n>> \o ChainFrom(n, nce, last, ex)

(* The uposathas of lunar year ce *)
LunarYear(ce, ex) == ChainFrom(KattikaMoon(Kattika(ce, ex), ce), ce - 1, ce, ex)

HalfPhase(u) == IF u.phase = "new" THEN "waxing" ELSE "waning"
HalfMoon(u) == [day |-> u.day + 8, phase |-> HalfPhase(u)]

Observance(day, what) == [day |-> day, what |-> what]
Observances(u) ==
    CASE u.ev = "magha"   -> {Observance(u.day, "magha puja")}
      [] u.ev = "vesakha" -> {Observance(u.day, "vesakha puja")}
      [] u.ev = "asalha"  -> {Observance(u.day, "asalha puja"),
                              Observance(u.day + 1, "first day of vassa")}
      [] u.ev = "pavarana" -> {Observance(u.day, "pavarana day"),
                               Observance(u.day, "last day of vassa")}
      [] OTHER -> {}

(* Every event of the lunar years first..last, with the Kattika full moon   *)
(* before the first (its half moon may fall in the next civil year).        *)
EventsOfLunar(first, last, ex) ==
    LET U == {KattikaMoon(Kattika(first, ex), first)}
             \cup UNION { Range(LunarYear(y, ex)) : y \in first..last }
    IN  [u |-> U, h |-> { HalfMoon(x) : x \in U },
         o |-> UNION { Observances(x) : x \in U }]

Within(S, lo, hi) == { x \in S : lo <= x.day /\ x.day <= hi }

(* The events whose day is in lo..hi (day numbers): a lunar year y covers  *)
(* from about November of y-1 to November of y, and the half moon of its   *)
(* last uposatha still belongs to it.                                      *)
EventsBetween(lo, hi, ex) ==
    IF hi < lo THEN [u |-> {}, h |-> {}, o |-> {}]
    ELSE
    LET E == EventsOfLunar(CivilYear(lo), CivilYear(hi) + 1, ex)
    IN  [u |-> Within(E.u, lo, hi), h |-> Within(E.h, lo, hi),
         o |-> Within(E.o, lo, hi)]

SolarYear(ce, ex) == EventsBetween(DayNum(ce, 1, 1), DayNum(ce, 12, 31), ex)
=============================================================================

------------------------------ MODULE MC_Sync ------------------------------
(* The two reckonings of the library run side by side: the succession of     *)
(* uposathas, which only counts days, and the era clock, which knows the age *)
(* of the moon.  Every uposatha of the years FirstYear..LastYear stays in step with  *)
(* the moon's age (C21), and Asalha Puja of the year reckoning is the full   *)
(* moon that the succession marks as asalha (C06).                           *)
EXTENDS Calendar, Lunation
CONSTANTS FirstYear, LastYear, ExOn
Ex == IF ExOn THEN StdEx ELSE NoEx
VARIABLES u, ce, kind
Start(y) == KattikaMoon(Kattika(y, Ex), y)
Init == ce = FirstYear /\ kind = Kind(FirstYear, Ex) /\ u = Start(FirstYear)
EndOfYear == u.mon = 12 /\ u.phase = "full" /\ u.ly = ce + 543
Step == /\ ~EndOfYear
        /\ u' = NextUposatha(u, kind) /\ UNCHANGED <<ce, kind>>
NewLunarYear == /\ EndOfYear /\ ce < LastYear
                /\ ce' = ce + 1 /\ kind' = Kind(ce + 1, Ex) /\ u' = u
Next == Step \/ NewLunarYear
Spec == Init /\ [][Next]_<<u, ce, kind>>

HorakhunDay(day) == day - DayNum(638, 3, 24)
Age(day) == TithiH(HorakhunDay(day))
InStep == IF u.phase = "full" THEN Age(u.day) \in 13..16
          ELSE Age(u.day) \in {28, 29, 0, 1}
(* ... and with the moon in the sky *)
NearMoon == CivilYear(u.day) \in 1300..4000 => BesideMoon(u.day, u.phase)
AsalhaAgrees == u.ev = "asalha" => u.day = Asalha(ce, Ex) /\ u.day = Kattika(ce + 1, Ex) - 118
KattikaAgrees == EndOfYear => u.day = Kattika(ce + 1, Ex)
AsalhaAge == u.ev = "asalha" => Age(u.day) \in 14..16
(* the lunar year may be told from the civil date of the last uposatha        *)
(* (which is how the library does it)                                        *)
ByCivilDate == ce \in 1300..4000 /\ u.mon # 12 =>
    LET nx == NextUposatha(u, kind) IN NextUposatha(u, Kind(CivilYear(u.day), Ex)) = nx
Solar(o) == CivilYear(o.day) = ce
ObservancesInYear == ce \in 1300..4000 => \A o \in Observances(u) : Solar(o)
=============================================================================

---------------------------- MODULE MC_Calendar ----------------------------
(* The listings of the years FirstYear..LastYear, one state a year: each     *)
(* observance once a year at the right full moon, events on days of their    *)
(* own, a half moon between any two uposathas, and a range is the sum of its *)
(* parts.                                                                    *)
EXTENDS Calendar
CONSTANTS FirstYear, LastYear, ExOn, Cut
Ex == IF ExOn THEN StdEx ELSE NoEx
VARIABLES ce, E
Init == ce = FirstYear /\ E = SolarYear(FirstYear, Ex)
Next == ce < LastYear /\ ce' = ce + 1 /\ E' = SolarYear(ce + 1, Ex)
Spec == Init /\ [][Next]_<<ce, E>>

Names == {"magha puja", "vesakha puja", "asalha puja", "first day of vassa",
          "pavarana day", "last day of vassa"}
DayOfObs(w) == LET S == { o \in E.o : o.what = w } IN (CHOOSE o \in S : TRUE).day
OnceAYear == \A w \in Names : Cardinality({ o \in E.o : o.what = w }) = 1
AtFullMoons == \A o \in E.o : \E u \in E.u :
    /\ u.phase = "full" /\ u.day = IF o.what = "first day of vassa" THEN o.day - 1 ELSE o.day
Distances ==
    LET long == Kind(ce, Ex) = "month" IN
    /\ DayOfObs("first day of vassa") = DayOfObs("asalha puja") + 1
    /\ DayOfObs("last day of vassa") = DayOfObs("pavarana day")
    \* Vassa is three lunar months
    /\ DayOfObs("pavarana day") - DayOfObs("asalha puja") = 30 + 29 + 30
    \* three months, and two
    /\ DayOfObs("vesakha puja") - DayOfObs("magha puja") = IF long THEN 89 ELSE 88
    /\ DayOfObs("asalha puja") - DayOfObs("vesakha puja")
         = IF Kind(ce, Ex) = "day" THEN 60 ELSE 59
Sparse == /\ \A x, y \in E.u : x # y => (x.day - y.day >= 14 \/ y.day - x.day >= 14)
          /\ { x.day : x \in E.u } \cap { x.day : x \in E.h } = {}
          /\ Cardinality({ x.day : x \in E.u }) = Cardinality(E.u)
          /\ Cardinality(E.u) \in 24..26 /\ Cardinality(E.h) \in 24..26
\* after an uposatha of this year its half moon comes, before the next one
Halves == \A u \in E.u :
    (\E v \in E.u : v.day > u.day) =>
        \E h \in E.h : h.day = u.day + 8 /\ h.phase = HalfPhase(u)
                       /\ \A v \in E.u : ~(u.day < v.day /\ v.day <= h.day)
SumOfParts ==
    LET lo == DayNum(ce, 1, 1)  hi == DayNum(ce, 12, 31)  c == lo + ((Cut + 7 * ce) % 365)
        a == EventsBetween(lo, c, Ex)  b == EventsBetween(c + 1, hi, Ex)
    IN  /\ E.u = a.u \cup b.u /\ E.h = a.h \cup b.h /\ E.o = a.o \cup b.o
        /\ a.u \cap b.u = {} /\ a.h \cap b.h = {} /\ a.o \cap b.o = {}
LunarYears == \A u \in E.u : u.ly = ce + 543 \/ (u.ly = ce + 544 /\ u.mon \in 1..3)
                            \/ (u.ly = ce + 543 /\ u.mon \in 1..3)
=============================================================================

------------------------------ MODULE MC_Civil ------------------------------
(* The civil calendar is walked day by day through SPAN days from 0638-03-24: *)
(* the closed-form day count and its inverse agree with the walk.             *)
EXTENDS Civil
CONSTANT Span, StartYear
VARIABLES c, n
Init == c = [y |-> StartYear, m |-> 3, d |-> 24] /\ n = DayNum(StartYear, 3, 24)
Next == /\ n < DayNum(StartYear, 3, 24) + Span
        /\ c' = NextCivil(c) /\ n' = n + 1
Spec == Init /\ [][Next]_<<c, n>>
Agree == DayNum(c.y, c.m, c.d) = n /\ CivilOf(n) = c /\ IsCivil(c)
=============================================================================

---------------------------- MODULE MC_DayClock ----------------------------
(* The era clock run day by day from the first day of the era: what one day  *)
(* adds, against the closed form of the day (C17).                           *)
EXTENDS Ephemeris
CONSTANT Days
VARIABLES h, a, m, t, u
vars == <<h, a, m, t, u>>
Init == h = 0 /\ a = 650 /\ m = 0 /\ t = 0 /\ u = 2611
Next == /\ h < Days
        /\ h' = h + 1
        /\ a' = (a + 11) % 692
        \* a tithi passes each day, and one more each time the avoman is full
        /\ LET x == t + 1 + (IF a + 11 >= 692 THEN 1 ELSE 0)
           IN  t' = x % 30 /\ m' = m + (x \div 30)
        /\ u' = (u + 1) % 3232
Spec == Init /\ [][Next]_vars
ClosedForm == a = AvomanH(h) /\ t = TithiH(h) /\ m = MasakenH(h) /\ u = UccabalaH(h)
(* 703 tithis in 692 days *)
Ratio == h + 692 <= Days => TithisH(h + 692) - TithisH(h) = 703
=============================================================================

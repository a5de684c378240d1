------------------------------ MODULE MC_Cycle ------------------------------
(* Every state of the era's cyclic clock (k in KSet) is an initial state:    *)
(* what holds here holds for every year of the era without end, because the  *)
(* clock runs through all 800*692*30 states.                                 *)
EXTENDS Era, FiniteSets
CONSTANTS KLo, KHi
VARIABLE s
Init == s \in [k : KLo..KHi, a : 0..691, t : 0..29]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
N1 == SuccCycle(s)
Inverse == PredCycle(N1) = s /\ N1.k \in 1..800 /\ N1.a \in 0..691 /\ N1.t \in 0..29
RECURSIVE Nth(_, _)
Nth(x, n) == IF n = 0 THEN x ELSE Nth(SuccCycle(x), n - 1)
(* an adhikamasa year comes back after 2 or 3 years *)
MonthGap == IsM(s) => LET a == Nth(s, 1) b == Nth(a, 1) c == Nth(b, 1)
                      IN ~IsM(a) /\ (IsM(b) \/ IsM(c))
MonthWithin == IsM(s) \/ IsM(Nth(s, 1)) \/ IsM(Nth(s, 2))
(* never both, and an adhikavara year comes back within 7 years *)
Exclusive == ~(IsM(s) /\ IsV(s))
DayWithin == IsV(s) => \E i \in 1..7 : IsV(Nth(s, i))
Deferral == IsM(s) /\ WouldV(s) => IsV(N1)
=============================================================================

----------------------------- MODULE MC_Lunation -----------------------------
(* The succession of the moon's phases by the theory, one after the other,   *)
(* beside the era's own reckoning of the moon's age.                         *)
EXTENDS Lunation
CONSTANTS Before, LastK
VARIABLES k, at, gap
FirstK == -Before
Init == k = FirstK /\ at = PhaseAt(FirstK) /\ gap = 0
Next == /\ k < LastK
        /\ \A t \in {PhaseAt(k + 1)} : at' = t /\ gap' = t - at
        /\ k' = k + 1
Spec == Init /\ [][Next]_<<k, at, gap>>

\* a quarter of a lunation takes 6.5 to 8.4 days
Gaps == gap = 0 \/ gap \in 9360..12100
\* the true phase is within 15 (new, full) or 21 hours of the mean one
Near == Abs(at - MeanPhase(k)) <= IF k % 2 = 0 THEN 900 ELSE 1260
\* a phase is the nearest one of its kind at its own time
Itself == Nearest(at, Kind4(k)) = k
\* the era's clock: the age of the moon (in tithi, on the day after midnight
\* in the longitude of Thailand) goes with the phase
Age == TithiH(Epoch + (at + 402) \div 1440 - DayNum(638, 3, 24))
Clock == (Age - ((15 * Kind4(k)) \div 2)) % 30 \in {27, 28, 29, 0, 1, 2}
=============================================================================

---------------------------- MODULE MC_Ephemeris ----------------------------
(* The places of the sun and the moon through the days of a year: nothing    *)
(* leaves the circle, the sun makes a degree a day, and the corrections have *)
(* the size they should have.                                                *)
EXTENDS Ephemeris, FiniteSets
CONSTANTS FirstYear, LastYear, LastDay
VARIABLES ce, day
Init == ce \in FirstYear..LastYear /\ day = 0
Next == day < LastDay /\ day' = day + 1 /\ UNCHANGED ce
Spec == Init /\ [][Next]_<<ce, day>>
MS == MeanSun4(ce, day)
TS == CHOOSE x \in TrueSuns4(MS) : TRUE
MM == MeanMoon6(TS, DayHorakhun(ce, day))
TM == TrueMoon4(MM, ce, day)
SunSteps == LET d == MeanSun4(ce, day + 1) - MS IN d \in 9600..10000 \/ d \in 9600 - Full4..10000 - Full4
SunNear == \A x \in TrueSuns4(MS) : Abs(x - MS) <= 22600
Narrow == Cardinality(TrueSuns4(MS)) <= 6
MoonIn == MM \in 0..(Full6 - 1) /\ TM \in 0..(Full4 - 1)
MoonNear == CircDist(TM, MM \div 6, Full4) <= 49400
RaekIn == Raek4(TM) \in 10000..280000
=============================================================================

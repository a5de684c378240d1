------------------------------- MODULE MC_Era -------------------------------
(* The era clock is run year by year; at every year the closed form, the     *)
(* cyclic projection, and the statements of properties C01, C02, C03, C05,   *)
(* C20 hold.                                                                 *)
EXTENDS Lunar
CONSTANT LastYear
VARIABLES e, sinceM, sinceV, kat
Cyc(x) == [k |-> x.k, a |-> x.a, t |-> x.t]
Init == e = EraYear(EraFirst) /\ sinceM = 99 /\ sinceV = 99 /\ kat = 0
Next ==
  /\ e.ce < LastYear
  /\ e' = NextYear(e)
  /\ sinceM' = IF IsM(Cyc(e)) THEN 1 ELSE IF sinceM = 99 THEN 99 ELSE sinceM + 1
  /\ sinceV' = IF e.ce > EraFirst /\ IsV(Cyc(e)) THEN 1 ELSE IF sinceV = 99 THEN 99 ELSE sinceV + 1
  /\ kat' = IF e.ce < LoYear \/ e.ce >= HiYear THEN 0
            ELSE IF kat = 0 THEN Kattika(e.ce, NoEx) + YearLen(e.ce, NoEx)
            ELSE kat + YearLen(e.ce, NoEx)
Spec == Init /\ [][Next]_<<e, sinceM, sinceV, kat>>

ClosedForm == e = EraYear(e.ce)
CyclicForm == /\ Cyc(e) = Cycle(e.ce)
              /\ Cyc(e) = CycleFar(e.ce)
              /\ PredCycle(SuccCycle(Cyc(e))) = Cyc(e)
              /\ SuccCycle(PredCycle(Cyc(e))) = Cyc(e)
FarForm == LET f == EraFar(e.ce) IN
              /\ f.h1 * 20760 + f.h2 = e.h /\ f.m1 * 703 + f.m2 = e.m
              /\ <<f.ce, f.k, f.u, f.a, f.t>> = <<e.ce, e.k, e.u, e.a, e.t>>
Ranges == e.k \in 1..800 /\ e.a \in 0..691 /\ e.t \in 0..29 /\ e.u \in 0..3231
Century8 == e.ce + 800 <= LastYear => Horakhun(e.ce + 800) - e.h = 292207
GapM == IsM(Cyc(e)) => sinceM \in {2, 3, 99}
GapV == e.ce \in 639..4000 /\ IsV(Cyc(e)) => sinceV \in {4, 5, 6, 7, 99}
Exclusive == ~(IsM(Cyc(e)) /\ IsV(Cyc(e)))
SinceOK == /\ (e.ce > 660 /\ sinceM # 99) => DeltaM(e.ce) = sinceM
           /\ (e.ce > 660 /\ sinceV # 99) => DeltaV(e.ce, NoEx) = sinceV
KattikaWalk == kat # 0 => kat = Kattika(e.ce, NoEx)
KattikaInSeason == kat # 0 /\ e.ce <= 4000 => CivilYear(kat) = e.ce - 1
CycleWalk == /\ CyclePos(e.ce + 1, 57) = (CyclePos(e.ce, 57) % 57) + 1
             /\ CyclePos(e.ce + 1, 19) = (CyclePos(e.ce, 19) % 19) + 1
             /\ CyclePos(1984, 57) = 1 /\ CyclePos(2041, 57) = 1
(* The era's new year is in the spring of the civil year of its number.     *)
NewYear == LET c == CivilOf(DayNum(638, 3, 24) + e.h) IN c.y = e.ce /\ c.m \in 3..6
(* the deferred extra day *)
Deferral == e.ce > 640 =>
    LET p == PredCycle(Cyc(e)) IN IsM(p) /\ WouldV(p) /\ ~IsM(Cyc(e)) => IsV(Cyc(e))
=============================================================================

---------------------------- MODULE MC_Uposatha ----------------------------
(* The succession of uposathas through every sequence of year kinds the era  *)
(* allows (no two adhikamasa years in a row): the transitions produce        *)
(* exactly the closed-form shape of each year.  Days are counted within the  *)
(* year (day 0 is the Kattika full moon) and the year number is dropped, so  *)
(* the state space is finite and complete.                                   *)
EXTENDS Uposatha
VARIABLES u, kind, i
Kinds == {"common", "day", "month"}
KindDays(k) == CASE k = "common" -> 354 [] k = "day" -> 355 [] k = "month" -> 384
Init == kind \in Kinds /\ i = 0 /\ u = KattikaMoon(0, 0)
Rebase(x) == [x EXCEPT !.day = 0, !.ly = 542]
FullMoon == /\ u.phase = "new"
            /\ u' = NextUposatha(u, kind) /\ i' = i + 1 /\ UNCHANGED kind
NewMoon == /\ u.phase = "full" /\ u.mon # 12
           /\ u' = NextUposatha(u, kind) /\ i' = i + 1 /\ UNCHANGED kind
FirstNewMoon == /\ u.phase = "full" /\ u.mon = 12 /\ i = 0
                /\ u' = NextUposatha(u, kind) /\ i' = 1 /\ UNCHANGED kind
NewLunarYear == /\ i = UposathasIn(kind)
                /\ \E k \in Kinds : ~(k = "month" /\ kind = "month") /\ kind' = k
                /\ i' = 0 /\ u' = Rebase(u)
Next == FullMoon \/ NewMoon \/ FirstNewMoon \/ NewLunarYear
Spec == Init /\ [][Next]_<<u, kind, i>> /\ WF_<<u, kind, i>>(Next)

Shape == i > 0 => u = Ideal(i, kind, 0, 0)
EndOfYear == i = UposathasIn(kind) =>
                /\ u.day = KindDays(kind) /\ u.mon = 12 /\ u.phase = "full"
                /\ u.sn = 8 /\ u.st = 8 /\ u.sea = 3
Numbers == u.sn \in 1..u.st /\ u.st \in {8, 10} /\ u.ud \in {14, 15} /\ u.md \in {29, 30}
AsalhaDay == u.ev = "asalha" => u.day = KindDays(kind) - 118
Alternate == [][ (i' = i + 1) => u'.phase # u.phase ]_<<u, kind, i>>
YearsGoOn == []<>(i = 0)
=============================================================================

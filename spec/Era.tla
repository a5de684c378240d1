-------------------------------- MODULE Era --------------------------------
(***************************************************************************)
(* The era clock of the Suriyayatra reckoning (Chulasakkarat era, CE 638). *)
(*                                                                         *)
(* 800 solar years are 292207 days, and 692 solar days are 703 tithis.     *)
(* Two views are specified, and MC_Era checks that they are the same:      *)
(*   - the state machine: what one New Year adds to the last (Succ), which *)
(*     is what a user of a calendar relies on, and                         *)
(*   - the closed form: the values of year ce computed from ce alone,      *)
(*     which is what the library promises to compute on every Init.        *)
(*                                                                         *)
(* The remainder values <<k, a, t>> (kammacubala, avoman, tithi) evolve by *)
(* themselves: <<k, a, t>> of one year determines that of the next and of  *)
(* the previous one.  There are 800*692*30 = 16608000 of them and the      *)
(* clock runs through all of them before it repeats, so a predicate that   *)
(* holds for every <<k, a, t>> holds for every year of the era (MC_Cycle). *)
(***************************************************************************)
EXTENDS Integers

EraFirst == 638                       \* CE year of CS 0

-----------------------------------------------------------------------------
(* Closed form, by CE year (ce >= 638) or by horakhun h (elapsed days). *)
EraNum(ce)      == (ce - EraFirst) * 292207 + 373      \* 800ths of a day
Horakhun(ce)    == EraNum(ce) \div 800 + 1
Kammacubala(ce) == 800 - (EraNum(ce) % 800)

MoonNum(h) == 11 * h + 650
AvomanH(h) == MoonNum(h) % 692
TithisH(h) == h + MoonNum(h) \div 692    \* all tithis of the era
MasakenH(h) == TithisH(h) \div 30
TithiH(h)  == TithisH(h) % 30
UccabalaH(h) == (h + 2611) % 3232

EraYear(ce) ==
    LET h == Horakhun(ce) IN
    [ce |-> ce, h |-> h, k |-> Kammacubala(ce), u |-> UccabalaH(h),
     a |-> AvomanH(h), m |-> MasakenH(h), t |-> TithiH(h)]

-----------------------------------------------------------------------------
(* The state machine. *)
IsLeap(s) == s.k <= 207               \* a solar leap year has 366 days
SolarDays(s) == IF IsLeap(s) THEN 366 ELSE 365

SuccCycle(s) ==
    LET d == SolarDays(s)
        x == s.a + 11 * d
    IN  [k |-> IF s.k <= 207 THEN s.k + 593 ELSE s.k - 207,
         a |-> x % 692,
         t |-> (s.t + d + x \div 692) % 30]

PredCycle(s) ==
    LET k == IF s.k > 593 THEN s.k - 593 ELSE s.k + 207
        d == IF k <= 207 THEN 366 ELSE 365
        a == (s.a - 11 * d) % 692
    IN  [k |-> k, a |-> a, t |-> (s.t - d - (a + 11 * d) \div 692) % 30]

NextYear(s) ==
    LET c == SuccCycle(s)
        d == SolarDays(s)
        tithis == 30 * s.m + s.t + d + (s.a + 11 * d) \div 692
    IN  [ce |-> s.ce + 1, h |-> s.h + d, k |-> c.k, u |-> (s.u + d) % 3232,
         a |-> c.a, m |-> tithis \div 30, t |-> tithis % 30]

Cycle(ce) == LET h == Horakhun(ce) IN
             [k |-> Kammacubala(ce), a |-> AvomanH(h), t |-> TithiH(h)]

(* The same for a year as far away as one likes: the cyclic values depend   *)
(* on the horakhun modulo 692*30 = 20760 only.                              *)
CycleFar(ce) ==
    LET q == (ce - EraFirst) \div 800
        r == (ce - EraFirst) % 800
        h == ((q % 20760) * (292207 % 20760) + Horakhun(EraFirst + r)) % 20760
    IN  [k |-> Kammacubala(EraFirst + r), a |-> AvomanH(h), t |-> TithiH(h)]

(* All values of such a year, with the horakhun as h1 * 20760 + h2 and the  *)
(* masaken as m1 * 703 + m2: 20760 days are 21090 tithis or 703 months.     *)
EraFar(ce) ==
    LET q  == (ce - EraFirst) \div 800
        r  == (ce - EraFirst) % 800
        x  == (q \div 2) * 1567                      \* 292207 = 14 * 20760 + 1567
        y  == 2 * (x % 20760) + (q % 2) * 1567 + Horakhun(EraFirst + r)
        h1 == 14 * q + 2 * (x \div 20760) + y \div 20760
        h2 == y % 20760
    IN  [ce |-> ce, h1 |-> h1, h2 |-> h2, k |-> Kammacubala(EraFirst + r),
         u |-> ((h1 % 3232) * (20760 % 3232) + h2 + 2611) % 3232, a |-> AvomanH(h2),
         m1 |-> h1 + MasakenH(h2) \div 703, m2 |-> MasakenH(h2) % 703, t |-> TithiH(h2)]

-----------------------------------------------------------------------------
(* Intercalation, as predicates of the cyclic state alone. *)
WouldM(s) == s.t >= 24 \/ s.t <= 5
IsM(s)    == WouldM(s) /\ ~WouldM(SuccCycle(s))
WouldV(s) == IF IsLeap(s) THEN s.a <= 126 ELSE s.a <= 136
Carried(s) == LET p == PredCycle(s) IN IsM(p) /\ WouldV(p)
IsV(s)    == ~IsM(s) /\ (Carried(s) \/ WouldV(s))
KindOf(s) == IF IsM(s) THEN "month" ELSE IF IsV(s) THEN "day" ELSE "common"
=============================================================================

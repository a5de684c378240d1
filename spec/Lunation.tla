------------------------------ MODULE Lunation ------------------------------
(***************************************************************************)
(* When the moon is new, at its first quarter, full and at its last        *)
(* quarter: the theory of the moon (the terms of more than 0.002 days of   *)
(* Chapront's theory as given by Meeus, ch. 49), in integers.              *)
(*                                                                         *)
(* Phase k (0 is the new moon of 2000 January 6) has the kind k mod 4, in  *)
(* the order new, first quarter, full, last quarter.  Times are minutes    *)
(* from the midnight before 2000 January 6; angles are thousandths of a    *)
(* degree.  Good to ten minutes in 1600..2400, to two hours in 1300..4000. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Civil, Ephemeris

Kind4(k) == k % 4
\* 7 days 9 hours 11.0119871 minutes, from 14:19 (less one minute for the
\* difference of the theory's time to civil time)
MeanPhase(k) == 859 + k * 10631 + (k * 12) \div 1000

Sin4(m) == Sin6((m % 360000) * 10) \div 100         \* in 1/10000
Cos4(m) == Sin4(m + 90000)
SunAnomaly(k)  == (2553 + k * 7276 + (k * 339) \div 1000) % 360000
MoonAnomaly(k) == (201564 + (k \div 4) * 25816 + ((k \div 4) * 935) \div 1000 + (k % 4) * 96454) % 360000
Latitude(k)    == (160711 + (k \div 4) * 30670 + ((k \div 4) * 503) \div 1000 + (k % 4) * 97668) % 360000

(* What the unevenness of the two motions adds, in 10^-9 days              *)
Unevenness(k) ==
    LET s == SunAnomaly(k)
        m == MoonAnomaly(k)
        f == Latitude(k)
        w == 306 * 10000 - 38 * Cos4(s) + 26 * Cos4(m)
        W(a, b, c, d, e, g, h) == a * Sin4(m) + b * Sin4(s) + c * Sin4(2 * m) + d * Sin4(2 * f)
                                  + e * Sin4(m - s) + g * Sin4(m + s) + h * Sin4(2 * s)
    IN  CASE Kind4(k) = 0 -> W(-40720, 17241, 1608, 1039, 739, -514, 208)
          [] Kind4(k) = 2 -> W(-40614, 17302, 1614, 1043, 734, -515, 209)
          [] Kind4(k) = 1 -> W(-62801, 17172, 862, 804, 454, -1183, 204) + w
          [] OTHER        -> W(-62801, 17172, 862, 804, 454, -1183, 204) - w
PhaseAt(k) == MeanPhase(k) + ((Unevenness(k) \div 1000) * 144) \div 100000

Epoch == DayNum(2000, 1, 6)
PhaseDay(k) == Epoch + PhaseAt(k) \div 1440
Minute(day, sec) == (day - Epoch) * 1440 + sec \div 60
(* The phase of a kind nearest to a time *)
NearestK(t) == (t - 859 + 5315) \div 10631
Nearest(t, kind) == CHOOSE k \in (NearestK(t) - 4)..(NearestK(t) + 4) :
                       /\ Kind4(k) = kind
                       /\ Abs(MeanPhase(k) - t) <= 2 * 10631 + 1
(* The day of a new-moon or full-moon uposatha, beside the moon in the sky *)
BesideMoon(n, phase) ==
    \A k \in {Nearest(Minute(n, 43200), IF phase = "full" THEN 2 ELSE 0)} :
        (n - PhaseDay(k)) \in -2..1
=============================================================================

----------------------------- MODULE Ephemeris -----------------------------
(***************************************************************************)
(* The day record: the era clock at the level of days, and the places of   *)
(* the sun and the moon computed from it.                                  *)
(*                                                                         *)
(* All in integers.  Units: deg4 is 1/10000 of a degree (the grid of the   *)
(* library's results), deg6 is 1/60000 of a degree.  The sine is a table   *)
(* with second-order interpolation, good to 5/1000000; what is computed    *)
(* through it is specified as an interval, never as one value.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Era

ElapsedDays(ce, day) == day - TithiH(Horakhun(ce))
DayHorakhun(ce, day) == Horakhun(ce) + ElapsedDays(ce, day)
DayKammacubala(ce, day) == Kammacubala(ce) + 800 * ElapsedDays(ce, day)

-----------------------------------------------------------------------------
Floor60(n) == (n * 10000) \div 60         \* arcmin to deg4, floored

(* Mean sun: the fraction of the 292207 elapsed, of 360 degrees, to the    *)
(* arcmin, less 3 arcmin for the longitude.                                *)
MeanSun4(ce, day) ==
    LET n   == DayKammacubala(ce, day)
        x   == 360 * n
        deg == x \div 292207
        am  == ((x % 292207) * 60) \div 292207
    IN  deg * 10000 + Floor60(am - 3)

-----------------------------------------------------------------------------
SinTable == <<
  0, 17452, 34899, 52336, 69756, 87156, 104528, 121869, 139173, 156434,
  173648, 190809, 207912, 224951, 241922, 258819, 275637, 292372, 309017, 325568,
  342020, 358368, 374607, 390731, 406737, 422618, 438371, 453990, 469472, 484810,
  500000, 515038, 529919, 544639, 559193, 573576, 587785, 601815, 615661, 629320,
  642788, 656059, 669131, 681998, 694658, 707107, 719340, 731354, 743145, 754710,
  766044, 777146, 788011, 798636, 809017, 819152, 829038, 838671, 848048, 857167,
  866025, 874620, 882948, 891007, 898794, 906308, 913545, 920505, 927184, 933580,
  939693, 945519, 951057, 956305, 961262, 965926, 970296, 974370, 978148, 981627,
  984808, 987688, 990268, 992546, 994522, 996195, 997564, 998630, 999391, 999848,
  1000000, 999848 >>
Full4 == 3600000
(* sine of an angle in deg4, in millionths, within 5 *)
Sin90(x) ==   \* 0 <= x <= 90 deg
    LET d == x \div 10000
        f == x % 10000
        s0 == SinTable[d + 1]
        s1 == SinTable[d + 2]
        q  == (f * (10000 - f)) \div 10000            \* <= 2500
        mid == (s0 + s1) \div 2
    IN  s0 + ((s1 - s0) * f) \div 10000
           + (((q * (mid \div 1000)) \div 100) * 1523) \div 1000000
Sin6(x) ==
    LET y == x % Full4
    IN  IF y <= 900000 THEN Sin90(y)
        ELSE IF y <= 1800000 THEN Sin90(1800000 - y)
        ELSE IF y <= 2700000 THEN -Sin90(y - 1800000)
        ELSE -Sin90(Full4 - y)

Abs(x) == IF x < 0 THEN -x ELSE x

(* True sun, given the mean sun: plus the floor of 134 arcmin times the    *)
(* sine of the distance from 80 degrees (the distance, without its sign:   *)
(* see DESIGN.md).  A set of admissible values, in deg4.                   *)
TrueSuns4(ms) ==
    LET s == 134 * Sin6(Abs(ms - 800000))
        B == ((s - 1000) \div 1000000)..((s + 1000) \div 1000000)
    IN  UNION { {ms + Floor60(b) + e : e \in -1..1} : b \in B }

-----------------------------------------------------------------------------
Full6 == 21600000
(* Mean moon, from the true sun of the day: 12 degrees per tithi, the      *)
(* avoman and its 25th part in arcmin, less 40 arcmin (0.6666).            *)
MeanMoon6(ts, h) ==
    LET av == AvomanH(h) IN
    (6 * ts + 1000 * (av + av \div 25) + 720000 * TithiH(h) - 39996) % Full6

CircDist(x, y, full) == LET d == (x - y) % full IN IF d <= full - d THEN d ELSE full - d

(* Mean apogee in deg4: the year's uccabala carried on to the day *)
MeanApogee4(ce, day) ==
    ((UccabalaH(Horakhun(ce)) + ElapsedDays(ce, day)) * 112500) \div 101 + 333

TrueMoon4(mm, ce, day) ==
    LET m4 == mm \div 6
        s  == Sin6(m4 - MeanApogee4(ce, day))
    IN  (m4 - (296 * s) \div 6000) % Full4

(* Raek in 1/10000, from the true moon: 27 mansions of 13 deg 20 min *)
Raek4(tm) == 10000 + (tm * 3) \div 40
=============================================================================

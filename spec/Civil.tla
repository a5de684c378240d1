------------------------------- MODULE Civil -------------------------------
(***************************************************************************)
(* The proleptic Gregorian civil calendar.  Every date the library hands   *)
(* out is bound to the specification as a civil (year, month, day) triple, *)
(* and the specification does its own day counting, so that it shares no   *)
(* date arithmetic with the code under test.                               *)
(*                                                                         *)
(* DayNum counts days from 0000-03-01 (day 0).                             *)
(***************************************************************************)
EXTENDS Integers

DayNum(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
    IN  365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400)
          + ((153 * mm + 2) \div 5) + d - 1

(* The inverse: day number to civil date. *)
CivilOf(n) ==
    LET era == n \div 146097
        doe == n % 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp  == (5 * doy + 2) \div 153
        d   == doy - ((153 * mp + 2) \div 5) + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  [y |-> y, m |-> m, d |-> d]

CivilYear(n) == CivilOf(n).y

(* The calendar as everybody knows it: what comes after a given day. *)
IsLeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) ==
    CASE m \in {4, 6, 9, 11} -> 30
      [] m = 2 -> IF IsLeapYear(y) THEN 29 ELSE 28
      [] OTHER -> 31
NextCivil(c) ==
    IF c.d < DaysInMonth(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
    ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1]
    ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

IsCivil(c) == c.m \in 1..12 /\ c.d \in 1..DaysInMonth(c.y, c.m)
=============================================================================

------------------------------ MODULE Uposatha ------------------------------
(***************************************************************************)
(* The succession of uposathas: what follows a given uposatha, and the     *)
(* shape of a lunar year that results.  NextUposatha is the transition     *)
(* (one New Moon or Full Moon step); the closed form of the year (months,  *)
(* their lengths, seasons, observances) is stated apart from it, and       *)
(* MC_Uposatha checks on every sequence of year kinds that the transitions *)
(* produce exactly that shape.                                             *)
(*                                                                         *)
(* An uposatha is a record                                                 *)
(*  day   day number             phase  "new" or "full"                    *)
(*  ud,md days since the last uposatha / of the month                      *)
(*  mon   lunar month, 1..12, 13 is the 2nd Asalha                         *)
(*  sea   season 1..3            sn,st  number in / total of the season    *)
(*  ly    lunar year (BE)        av     TRUE on the extra day              *)
(*  ev    observance of the full moon, or ""                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

MonthsOf(kind) == IF kind = "month"
                  THEN <<1, 2, 3, 4, 5, 6, 7, 8, 13, 9, 10, 11, 12>>
                  ELSE <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>

MonthLen(mon, kind) == IF mon % 2 = 1 \/ (mon = 8 /\ kind = "day") THEN 30 ELSE 29

SeasonOf(mon) == IF mon <= 4 THEN 1 ELSE IF mon <= 8 \/ mon = 13 THEN 2 ELSE 3
SeasonTotal(mon, kind) == IF SeasonOf(mon) = 2 /\ kind = "month" THEN 10 ELSE 8

ObservanceOf(mon, kind) ==
    IF kind = "month"
    THEN CASE mon = 4 -> "magha" [] mon = 7 -> "vesakha"
           [] mon = 13 -> "asalha" [] mon = 11 -> "pavarana" [] OTHER -> ""
    ELSE CASE mon = 3 -> "magha" [] mon = 6 -> "vesakha"
           [] mon = 8 -> "asalha" [] mon = 11 -> "pavarana" [] OTHER -> ""

NextMonth(mon, kind) ==
    IF mon = 13 THEN 9
    ELSE IF mon = 8 /\ kind = "month" THEN 13
    ELSE IF mon = 12 THEN 1 ELSE mon + 1

(* kind: the kind of the lunar year the next uposatha belongs to *)
NewMoonStep(u, kind) ==
    LET mon == NextMonth(u.mon, kind)
        md  == MonthLen(mon, kind)
        ud  == IF md = 29 THEN 14 ELSE 15
        more == u.sn < u.st
    IN  [day |-> u.day + ud, phase |-> "new", ud |-> ud, md |-> md, mon |-> mon,
         sea |-> IF more THEN u.sea ELSE IF u.mon = 12 THEN 1 ELSE u.sea + 1,
         sn |-> IF more THEN u.sn + 1 ELSE 1,
         st |-> SeasonTotal(mon, kind),
         ly |-> IF ~more /\ u.mon = 12 THEN u.ly + 1 ELSE u.ly,
         av |-> kind = "day" /\ mon = 8,
         ev |-> ""]

FullMoonStep(u, kind) ==
    [u EXCEPT !.day = @ + 15, !.phase = "full", !.ud = 15, !.sn = @ + 1,
              !.av = FALSE, !.ev = ObservanceOf(u.mon, kind)]

NextUposatha(u, kind) == IF u.phase = "new" THEN FullMoonStep(u, kind)
                                            ELSE NewMoonStep(u, kind)

(* The Kattika full moon that ends the lunar year ce-1. *)
KattikaMoon(day, ce) ==
    [day |-> day, phase |-> "full", ud |-> 15, md |-> 29, mon |-> 12, sea |-> 3,
     sn |-> 8, st |-> 8, ly |-> ce - 1 + 543, av |-> FALSE, ev |-> ""]

-----------------------------------------------------------------------------
(* Closed form: the i-th uposatha (1-based) of a lunar year of a kind.     *)
UposathasIn(kind) == 2 * Len(MonthsOf(kind))
RECURSIVE DaysUpTo(_, _)
DaysUpTo(i, kind) ==
    IF i = 0 THEN 0
    ELSE LET mon == MonthsOf(kind)[(i + 1) \div 2]
         IN  DaysUpTo(i - 1, kind)
               + (IF i % 2 = 1 THEN MonthLen(mon, kind) - 15 ELSE 15)
SeasonStart(kind, sea) == CASE sea = 1 -> 0 [] sea = 2 -> 8
                            [] sea = 3 -> IF kind = "month" THEN 18 ELSE 16
Ideal(i, kind, ce, kattika) ==
    LET mon == MonthsOf(kind)[(i + 1) \div 2]
        new == i % 2 = 1
        sea == SeasonOf(mon)
    IN  [day |-> kattika + DaysUpTo(i, kind),
         phase |-> IF new THEN "new" ELSE "full",
         ud |-> IF new THEN MonthLen(mon, kind) - 15 ELSE 15,
         md |-> MonthLen(mon, kind), mon |-> mon, sea |-> sea,
         sn |-> i - SeasonStart(kind, sea), st |-> SeasonTotal(mon, kind),
         ly |-> ce + 543, av |-> new /\ kind = "day" /\ mon = 8,
         ev |-> IF new THEN "" ELSE ObservanceOf(mon, kind)]
=============================================================================

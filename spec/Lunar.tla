------------------------------- MODULE Lunar -------------------------------
(***************************************************************************)
(* The kinds and lengths of the lunar years, the Kattika full moons that   *)
(* end them, and Asalha Puja.                                              *)
(*                                                                         *)
(* ex is the configuration: [on, tab] with tab a sequence of <<year, flag>>*)
(* pairs, the table of adhikavara exceptions.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Civil, Era

NoEx == [on |-> FALSE, tab |-> << <<1994, FALSE>>, <<1997, TRUE>> >>]
StdEx == [on |-> TRUE, tab |-> << <<1994, FALSE>>, <<1997, TRUE>> >>]

ExIdx(ce, ex) == IF ex.on THEN { i \in DOMAIN ex.tab : ex.tab[i][1] = ce } ELSE {}

IsMonthYear(ce)   == IsM(Cycle(ce))
FormulaDay(ce)    == IsV(Cycle(ce))
IsDayYear(ce, ex) == LET I == ExIdx(ce, ex) IN
                     IF I = {} THEN FormulaDay(ce)
                     ELSE ex.tab[CHOOSE i \in I : TRUE][2]
Kind(ce, ex) == IF IsMonthYear(ce) THEN "month"
                ELSE IF IsDayYear(ce, ex) THEN "day" ELSE "common"

KindLen(kind) == CASE kind = "common" -> 354
                   [] kind = "day"    -> 355
                   [] kind = "month"  -> 384
YearLen(ce, ex) == KindLen(Kind(ce, ex))

-----------------------------------------------------------------------------
(* The Kattika full moon before solar year ce: the anchor is the Kattika   *)
(* of 2015-11-25 (the one before 2016), and consecutive Kattikas are one   *)
(* lunar year apart.                                                       *)
Anchor == DayNum(2015, 11, 25)
LoYear == 639
HiYear == 4002

(* Prefix sums of the lengths of the lunar years without exceptions. *)
\* LenBefore[i] = days of the lunar years LoYear .. LoYear+i-2
LenBefore == FoldLeft(LAMBDA acc, y : Append(acc, acc[Len(acc)] + KindLen(Kind(y, NoEx))),
                      <<0>>, [i \in 1..(HiYear - LoYear + 1) |-> LoYear + i - 1])
Before(ce) == LenBefore[ce - LoYear + 1]

(* What the exceptions add to the lengths of the lunar years lo..hi-1. *)
RECURSIVE ExDelta(_, _, _, _)
ExDelta(i, lo, hi, ex) ==
    IF ~ex.on \/ i > Len(ex.tab) THEN 0
    ELSE LET z == ex.tab[i][1]
             d == IF z >= lo /\ z < hi
                  THEN YearLen(z, ex) - YearLen(z, NoEx) ELSE 0
         IN  d + ExDelta(i + 1, lo, hi, ex)

Kattika(ce, ex) ==
    LET base == Anchor + Before(ce) - Before(2016)
    IN  IF ce >= 2016 THEN base + ExDelta(1, 2016, ce, ex)
        ELSE base - ExDelta(1, ce, 2016, ex)

AsalhaOffset(kind) == CASE kind = "common" -> 236
                        [] kind = "day"    -> 237
                        [] kind = "month"  -> 266
Asalha(ce, ex) == Kattika(ce, ex) + AsalhaOffset(Kind(ce, ex))

-----------------------------------------------------------------------------
(* Years since the last intercalation, as DeltaAdhikamasa/-vara report it. *)
RECURSIVE SinceM(_, _)
SinceM(ce, n) == IF n > 7 THEN -1
                 ELSE IF IsMonthYear(ce - n) THEN n ELSE SinceM(ce, n + 1)
RECURSIVE SinceV(_, _, _)
SinceV(ce, ex, n) == IF n > 13 THEN -1
                     ELSE IF IsDayYear(ce - n, ex) THEN n ELSE SinceV(ce, ex, n + 1)
DeltaM(ce) == SinceM(ce, 1)
DeltaV(ce, ex) == SinceV(ce, ex, 1)

CyclePos(ce, len) == ((ce - 1984) % len) + 1
=============================================================================

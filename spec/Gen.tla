-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Operations for the recorder, generated from the specification: for      *)
(* every sequence of three year kinds that the era allows, real years with *)
(* those kinds (forced, where need be, by a table of exceptions), and the  *)
(* Kattika full moon at which the succession of uposathas starts there.    *)
(* Extra years come in from the environment.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, Calendar

Params == JsonDeserialize(IOEnv.PARAMS)   \* [years, seed, n, cfgs]
Midnight(n) == LET c == CivilOf(n) IN <<c.y, c.m, c.d, 0, 0, 0>>
UItem(u) ==
    [t |-> "u", d |-> Midnight(u.day), cal |-> 0, st |-> 0, ph |-> u.phase, ev |-> u.ev,
     sn |-> u.sn, tot |-> u.st, ud |-> u.ud, md |-> u.md, mon |-> u.mon, sea |-> u.sea,
     ly |-> u.ly, av |-> u.av, src |-> "", com |-> ""]
Kinds == {"common", "day", "month"}
Steps(y, n, ex) == LET RECURSIVE S(_)
                       S(i) == IF i = n THEN 0 ELSE UposathasIn(Kind(y + i, ex)) + S(i + 1)
                   IN S(0)
Segment(y, n, ex) ==
    << [ev |-> "config", on |-> ex.on, tab |-> ex.tab],
       [ev |-> "chain", ce |-> y, steps |-> Steps(y, n, ex),
        u |-> UItem(KattikaMoon(Kattika(y, ex), y))] >>

(* three years with given kinds: the adhikamasa years are the era's; the   *)
(* others can be forced                                                    *)
Forced(y, ks) == [on |-> TRUE,
    tab |-> SelectSeq([i \in 1..3 |-> <<y + i - 1, ks[i] = "day">>],
                      LAMBDA p : ks[p[1] - y + 1] # "month")]
Fits(y, ks) == \A i \in 1..3 : IsMonthYear(y + i - 1) = (ks[i] = "month")
Triples == { ks \in [1..3 -> Kinds] : \E y \in 1300..1360 : Fits(y, ks) }
\* from a start which depends on the seed, the first year that fits
RECURSIVE FirstFit(_, _)
FirstFit(y, ks) == IF Fits(y, ks) THEN y ELSE FirstFit(y + 1, ks)
StartAt(i) == 1300 + ((Params.seed * 389 + i * 1009 + 7 * i * i) % 2600)
TripleSegs ==
    LET T == SetToSeq(Triples) IN
    [i \in DOMAIN T |-> LET y == FirstFit(StartAt(i), T[i])
                        IN  Segment(y, 3, Forced(y, T[i]))]
YearSegs == [i \in DOMAIN Params.years |->
               Segment(Params.years[i], Params.n, IF Params.on THEN StdEx ELSE NoEx)]

ASSUME JsonSerialize(IOEnv.OUT, [triples |-> TripleSegs, years |-> YearSegs])
=============================================================================

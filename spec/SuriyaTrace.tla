---------------------------- MODULE SuriyaTrace ----------------------------
(***************************************************************************)
(* Recorded executions of suriya-go, checked against the specification.    *)
(*                                                                         *)
(* Every line of the trace is one call of the library's API with its       *)
(* arguments and everything it returned.  Each kind of line has one action *)
(* here, which advances the specification's state (the configuration, the  *)
(* era clock, the current uposatha, the day being filled) by the           *)
(* transition of the specification and requires what the library returned  *)
(* to be what that state says.  A line that no action explains ends the    *)
(* behaviour before the end of the trace, and the trace is rejected.       *)
(*                                                                         *)
(* Active is the set of properties being decided: the requirement of a     *)
(* property is in force only if the property is active, so that a          *)
(* rejection is a violation of that property.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils,
        Calendar, Ephemeris, Angles, Labels, DayEntry, Lunation

Prog == INSTANCE Program WITH given <- 0, pc <- 0, disk <- 0, printed <- 0, exit <- 0

CONSTANT Active

Trace == ndJsonDeserialize(IOEnv.TRACE)
World == JsonDeserialize(IOEnv.WORLD)

VARIABLES l,       \* the next line of the trace
          ex,      \* the configuration: [on, tab]
          era,     \* the last year of the era clock that was seen
          upo,     \* the current uposatha of the chain
          uce,     \* the lunar year (CE) it belongs to
          kat,     \* the last year whose Kattika was seen: [ce, day, len]
          day      \* the calendar days being filled

vars == <<l, ex, era, upo, uce, kat, day>>
Nil == [ce |-> -1]

Chk(p, c) == (p \in Active) => c
Has(r, f) == f \in DOMAIN r
Line == Trace[l]
Dflt(f, x) == IF Has(Line, f) THEN Line[f] ELSE x
R == Line.r
IsEvent(e) == l <= Len(Trace) /\ Line.ev = e /\ Line.panic = "" /\ l' = l + 1

-----------------------------------------------------------------------------
(* Instants are [year, month, day, second, nanosecond, zone offset].       *)
DayOf(d) == DayNum(d[1], d[2], d[3])              \* in its own zone
UtcOf(d) == LET s == d[4] - d[6]
            IN  <<DayOf(d) + (s \div 86400), s % 86400, d[5]>>
Before2(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
InRange(u, from, to) == ~Before2(u, UtcOf(from)) /\ ~Before2(UtcOf(to), u)
Midnight(n) == LET c == CivilOf(n) IN <<c.y, c.m, c.d, 0, 0, 0>>
UtcYear(d) == CivilYear(UtcOf(d)[1])

ToSeq(x) == x                                      \* JSON arrays are sequences
Bag(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Once(s) == Cardinality(Range(s)) = Len(s)
Of(items, t) == SelectSeq(items, LAMBDA it : it.t = t)

-----------------------------------------------------------------------------
(* What the items of the calendar look like when the library returns them. *)
UItem(u, st) ==
    [t |-> "u", d |-> Midnight(u.day), cal |-> 0, st |-> st, ph |-> u.phase, ev |-> u.ev,
     sn |-> u.sn, tot |-> u.st, ud |-> u.ud, md |-> u.md, mon |-> u.mon, sea |-> u.sea,
     ly |-> u.ly, av |-> u.av, src |-> "", com |-> ""]
HItem(h) == [t |-> "h", d |-> Midnight(h.day), ph |-> h.phase]
MItem(o) == [t |-> "m", d |-> Midnight(o.day), cal |-> 0,
             sum |-> ObservanceText(o.what), desc |-> ObservanceText(o.what)]
AItem(a) == [t |-> "a", d |-> <<a[1], a[2], a[3], a[4], a[5], a[6]>>, ph |-> AstroPhase(a[7])]

(* An uposatha as the library gives it, read back *)
UOf(it) == [day |-> DayOf(it.d), phase |-> it.ph, ud |-> it.ud, md |-> it.md, mon |-> it.mon,
            sea |-> it.sea, sn |-> it.sn, st |-> it.tot, ly |-> it.ly, av |-> it.av, ev |-> it.ev]

(* The fields of an uposatha by the property that speaks of them. *)
Month(it)  == [t |-> it.t, cal |-> it.cal, st |-> it.st, src |-> it.src, com |-> it.com, d |-> it.d, ph |-> it.ph, ud |-> it.ud, md |-> it.md, mon |-> it.mon, av |-> it.av]
Season(it) == [d |-> it.d, sn |-> it.sn, tot |-> it.tot, sea |-> it.sea, ly |-> it.ly]
Obs(it)    == [d |-> it.d, ev |-> it.ev]

UposathaOK(it, want) ==
    /\ Chk("C07", Month(it) = Month(want))
    /\ Chk("C08", Season(it) = Season(want))
    /\ Chk("C09", Obs(it) = Obs(want))

-----------------------------------------------------------------------------
(* The moon's phases in the data that come with the library *)
AstroYear(y) == LET k == ToString(y) IN IF k \in DOMAIN World.astro THEN World.astro[k] ELSE <<>>
RECURSIVE AstroYears(_, _)
AstroYears(lo, hi) == IF lo > hi THEN <<>> ELSE AstroYear(lo) \o AstroYears(lo + 1, hi)
AstroIn(from, to) ==
    LET all == AstroYears(UtcYear(from), UtcYear(to))
        S == SelectSeq(all, LAMBDA a : InRange(UtcOf(a), from, to))
    IN  [i \in DOMAIN S |-> AItem(S[i])]

(* Near a New Moon or Full Moon of the data; there are no data about the   *)
(* turn of the year, and years without (complete) data.                    *)
AstroFull(y) == Len(AstroYear(y)) >= 48
NearAstro(n, phase) ==
    LET c == CivilOf(n) IN
    (AstroFull(c.y) /\ n - DayNum(c.y, 1, 1) > 4 /\ DayNum(c.y, 12, 31) - n > 4) =>
        \E a \in Range(AstroYear(c.y)) :
            AstroPhase(a[7]) = phase /\ (n - DayOf(a)) \in -2..1

MoonAge(n) == TithiH(n - DayNum(638, 3, 24))
InStep(n, phase) == IF phase = "full" THEN MoonAge(n) \in 13..16
                                      ELSE MoonAge(n) \in {28, 29, 0, 1}
InSky(n, phase) == CivilYear(n) \in 1300..4000 => BesideMoon(n, phase)

-----------------------------------------------------------------------------
(* The configuration *)
SameEx(tab1, tab2) == Range(tab1) = Range(tab2)
Config == /\ IsEvent("config")
          /\ ex' = [on |-> Line.on, tab |-> Line.tab]
          /\ kat' = Nil
          /\ UNCHANGED <<era, upo, uce, day>>
Defaults == /\ IsEvent("defaults")
            /\ Chk("C04", R.on = FALSE /\ R.n = 2 /\ SameEx(R.tab, StdEx.tab))
            /\ ex' = NoEx
            /\ UNCHANGED <<era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* A year.  When it is the one after the last, the clock ticks by the      *)
(* transition; otherwise it is set from the closed form.                   *)
EraAt(ce) == IF era.ce = ce - 1 /\ ce > EraFirst THEN NextYear(era) ELSE EraYear(ce)
EraTuple(e) == <<e.ce, e.ce + 543, e.ce - 638, e.h, e.k, e.u, e.a, e.m, e.t>>
FarLine == Line.ce > HiYear + 1000
CycAt(ce) == IF FarLine THEN CycleFar(ce) ELSE Cycle(ce)

YearText(e) ==
    "CE: " \o ToString(e.ce) \o "{a}BE: " \o ToString(e.ce + 543) \o "{a}CS: " \o ToString(e.ce - 638)
      \o "{a}Horakhun: " \o ToString(e.h) \o "{a}Kammacubala: " \o ToString(e.k)
      \o "{a}Uccabala: " \o ToString(e.u) \o "{a}Avoman: " \o ToString(e.a)
      \o "{a}Masaken: " \o ToString(e.m) \o "{a}Tithi: " \o ToString(e.t) \o "{a}"

YearOK(ce, e) ==
    /\ Has(R, "e") => Chk("C01", R.e = EraTuple(e) /\ R.e2 = R.e /\ R.leap = IsLeap(e))
    /\ Has(R, "w") => Chk("C01", \A f \in {EraFar(ce)} :
            R.w = [y |-> <<ce, ce + 543, ce - 638>>, h |-> <<f.h1, f.h2>>, m |-> <<f.m1, f.m2>>,
                   v |-> <<f.k, f.u, f.a, f.t>>, leap |-> IsLeap(f)])
    /\ Has(R, "im") => Chk("C02", R.im = IsM(CycAt(ce)) /\ R.wm = WouldM(CycAt(ce)))
    /\ Has(R, "iv") =>
         /\ Chk("C03", ExIdx(ce, ex) = {} =>
                /\ R.wv = WouldV(CycAt(ce)) /\ R.ca = Carried(CycAt(ce))
                /\ R.iv = IsV(CycAt(ce)))
         /\ Chk("C04", IF ExIdx(ce, ex) = {} THEN R.iv = IsV(CycAt(ce))
                       ELSE R.iv = IsDayYear(ce, ex))
    /\ Has(R, "len") =>
         /\ Chk("C05", R.len = IF FarLine THEN KindLen(KindOf(CycAt(ce))) ELSE YearLen(ce, ex))
         /\ Chk("C04", IF FarLine THEN TRUE ELSE R.len = YearLen(ce, ex))
    /\ Has(R, "kat") =>
         /\ Chk("C05", R.kat = Midnight(Kattika(ce, ex)))
         /\ Chk("C05", (kat.ce = ce - 1 /\ kat.day >= 0) => DayOf(R.kat) = kat.day + kat.len)
         /\ Chk("C04", R.kat = Midnight(Kattika(ce, ex)))
    /\ Has(R, "asa") => Chk("C06", R.asa = Midnight(Asalha(ce, ex)))
    /\ Has(R, "asa") => Chk("C04", R.asa = Midnight(Asalha(ce, ex)))
    /\ Has(R, "dm") => Chk("C20", R.dm = DeltaM(ce) /\ R.dv = DeltaV(ce, ex))
    /\ Has(R, "pm") => Chk("C20", R.pm = CyclePos(ce, 19) /\ R.pv = CyclePos(ce, 57))
    /\ Has(R, "str") => Chk("C23", R.str = ToString(ce) /\ R.vals = YearText(e) /\ R.json)

Year == /\ IsEvent("year")
        /\ LET ce == Line.ce
               e == IF FarLine THEN Nil ELSE EraAt(ce)
           IN  /\ YearOK(ce, e)
               /\ era' = e
               /\ kat' = [ce |-> ce, day |-> IF Has(R, "kat") THEN DayOf(R.kat) ELSE -1,
                          len |-> IF Has(R, "len") THEN R.len ELSE -1]
        /\ UNCHANGED <<ex, upo, uce, day>>

-----------------------------------------------------------------------------
(* A day of the reckoning *)
DayRec(ce, n) ==
    LET h == DayHorakhun(ce, n) IN
    <<ce, ce + 543, ce - 638, n, h, DayKammacubala(ce, n), UccabalaH(h),
      AvomanH(h), MasakenH(h), TithiH(h)>>
(* p: the five positions and how far they are off the decimals *)
PositionsOK(p, off, ce, n) ==
    /\ p[1] = MeanSun4(ce, n)
    /\ p[2] \in TrueSuns4(p[1])
    /\ CircDist(p[3], MeanMoon6(p[2], DayHorakhun(ce, n)), Full6) <= 2
    /\ CircDist(p[4], TrueMoon4(p[3], ce, n), Full4) <= 3
    /\ \A i \in 1..3 : off[i] <= 10      \* four decimals
    /\ p[4] >= 0 /\ p[4] <= Full4
    /\ p[3] >= 0 /\ p[3] <= Full6
    /\ Abs(p[5] - Raek4(p[4])) <= 3
    /\ p[5] >= 10000 /\ p[5] <= 280010
Day == /\ IsEvent("day")
       /\ LET ce == Line.ce n == Line.day IN
          /\ Chk("C17", R.n = DayRec(ce, n))
          /\ Chk("C18", PositionsOK(<<R.ms, R.ts, R.mm, R.tm, R.ra>>, R.off, ce, n))
       /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
(* All days of a year from one to another. *)
YearDays == /\ IsEvent("days")
            /\ Len(R.v) = Line.to - Line.from + 1
            /\ Line.part = "n" => Chk("C17", \A i \in 1..Len(R.v) : R.v[i] = DayRec(Line.ce, Line.from + i - 1))
            /\ Line.part = "p" => Chk("C18", \A i \in 1..Len(R.v) :
                    \A v \in {R.v[i]} : PositionsOK(v, <<v[6], v[7], v[8]>>, Line.ce, Line.from + i - 1))
            /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

Date == /\ IsEvent("date")
        /\ Chk("C16", /\ DayOf(R.d) = DayNum(638, 3, 24) + Line.h
                      /\ IsCivil([y |-> R.d[1], m |-> R.d[2], d |-> R.d[3]])
                      /\ R.d[4] = 86399 /\ R.d[5] = 0 /\ R.d[6] = 0 /\ R.zone = "UTC")
        /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

(* All dates of an interval: as runs of dates that are 24 hours apart.      *)
RECURSIVE RunsFrom(_, _)
RunsFrom(runs, h) ==      \* the count after the runs, if they start at h; or nothing
    IF runs = <<>> THEN h
    ELSE LET r == Head(runs) IN
         IF /\ IsCivil([y |-> r.d[1], m |-> r.d[2], d |-> r.d[3]])
            /\ DayOf(r.d) = DayNum(638, 3, 24) + h
            /\ r.d[4] = 86399 /\ r.d[5] = 0 /\ r.d[6] = 0
         THEN RunsFrom(Tail(runs), h + r.n) ELSE -1000000000
Dates == /\ IsEvent("dates")
         /\ Chk("C16", RunsFrom(R.runs, Line.h) = Line.to + 1)
         /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* Angles *)
(* "beside": an angle just above or below a whole number of degrees. *)
Ral == /\ IsEvent("ral")
       /\ LET below == Dflt("beside", 0) < 0
              n == IF below THEN Line.n - 1 ELSE Line.n
          IN  Chk("C19", /\ R.x = RasiD(n, Line.den) /\ R.y = AngsaD(n, Line.den)
                         /\ R.z = IF below THEN 59 ELSE LipdaD(n, Line.den)
                         /\ R.x * 30 + R.y = n \div Line.den /\ R.y \in 0..29 /\ R.z \in 0..59
                         /\ R.s = RalString(R.x, R.y, R.z)
                         /\ R.back = ToDeg4(R.x, R.y, R.z))
       /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
Deg == /\ IsEvent("deg")
       /\ Chk("C19", R.deg = ToDeg4(Line.x, Line.y, Line.z) /\ R.off <= 10)
       /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
Keep == /\ IsEvent("keep")
        /\ Chk("C19", (Line.n >= 0 /\ Line.n \div Line.den < 360) => R.same)
        /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
Norm == /\ IsEvent("norm")
        /\ Chk("C19", R.deg = Norm64(Line.n) /\ R.off = 0)
        /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* The succession of uposathas.  "chain" starts at the Kattika that ends   *)
(* the year ce-1, which the trace gives and the specification confirms.    *)
AtKattika(u) == u.mon = 12 /\ u.phase = "full"
Chain == /\ IsEvent("chain")
         /\ UOf(R.u) = KattikaMoon(Kattika(Line.ce, ex), Line.ce)
         /\ upo' = UOf(R.u) /\ uce' = Line.ce - 1
         /\ UNCHANGED <<ex, era, kat, day>>
NextU == /\ IsEvent("next")
         /\ R.after = R.before                   \* the uposatha itself is not touched
         /\ LET ce == IF AtKattika(upo) THEN uce + 1 ELSE uce
                n == NextUposatha(upo, Kind(ce, ex))
            IN  /\ UposathaOK(R.u, UItem(n, 0))
                /\ Chk("C21", ex.on \/ (InStep(DayOf(R.u.d), R.u.ph) /\ InSky(DayOf(R.u.d), R.u.ph) /\ NearAstro(DayOf(R.u.d), R.u.ph)))
                /\ Chk("C06", n.ev = "asalha" => DayOf(R.u.d) = Kattika(ce + 1, ex) - 118
                                                 /\ R.u.ev = "asalha")
                /\ upo' = n /\ uce' = ce
         /\ UNCHANGED <<ex, era, kat, day>>

(* The listing of a solar year *)
Proj(F(_), s) == { F(s[i]) : i \in DOMAIN s }
SolarOK(items, ce) ==
  \A E \in {TLCEval(SolarYear(ce, ex))} :
    LET u == Of(items, "u")  h == Of(items, "h")  m == Of(items, "m")
        WU == { UItem(x, 2) : x \in E.u }
        WH == { HItem(x) : x \in E.h }
        WM == { MItem(x) : x \in E.o }
        aa == SelectSeq(m, LAMBDA x : x.sum = ObservanceText("asalha puja"))
    IN  /\ Chk("C07", Proj(Month, u) = {Month(x) : x \in WU})
        /\ Chk("C08", Proj(Season, u) = {Season(x) : x \in WU})
        /\ Chk("C09", Proj(Obs, u) = {Obs(x) : x \in WU} /\ Range(m) = WM /\ Once(m))
        /\ Chk("C10", Range(h) = WH /\ Once(h))
        /\ Chk("C11", /\ Range(u) = WU /\ Range(h) = WH /\ Range(m) = WM /\ Once(items)
                      /\ Len(items) = Len(u) + Len(h) + Len(m))
        /\ Chk("C06", Len(aa) = 1 /\ aa[1].d = Midnight(Asalha(ce, ex)))
        /\ Chk("C21", ex.on \/ \A i \in DOMAIN u : InStep(DayOf(u[i].d), u[i].ph)
                                                   /\ InSky(DayOf(u[i].d), u[i].ph) /\ NearAstro(DayOf(u[i].d), u[i].ph))
Solar == /\ IsEvent("solar")
         /\ SolarOK(R.items, Line.ce)
         /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* A range of days *)
(* the observances of one day in the order in which the listing has them   *)
WhatOrder == <<"magha puja", "vesakha puja", "asalha puja", "first day of vassa",
               "pavarana day", "last day of vassa">>
OnDay(S, n) == { x \in S : x.day = n }
OneOf(S) == CHOOSE x \in S : TRUE
DayWant(n, E, A) ==
    LET u == OnDay(E.u, n)  h == OnDay(E.h, n)  o == OnDay(E.o, n)
        a == SelectSeq(A, LAMBDA x : UtcOf(x.d)[1] = n)
        ms == SelectSeq(WhatOrder, LAMBDA w : \E x \in o : x.what = w)
    IN  [d |-> IF u = {} /\ h = {} /\ o = {} THEN a[Len(a)].d ELSE Midnight(n),
         u |-> IF u = {} THEN <<>> ELSE << UItem(OneOf(u), 2) >>,
         h |-> IF h = {} THEN <<>> ELSE << HItem(OneOf(h)) >>,
         a |-> IF a = <<>> THEN <<>> ELSE << a[Len(a)] >>,
         m |-> [i \in DOMAIN ms |-> MItem(Observance(n, ms[i]))],
         e |-> <<>>]
RangeEvents(from, to) ==
    \* midnights within the range
    LET f == UtcOf(from)  t == UtcOf(to)
        lo == IF f[2] = 0 /\ f[3] = 0 THEN f[1] ELSE f[1] + 1
    IN  EventsBetween(lo, t[1], ex)
NoEvents == [u |-> {}, h |-> {}, o |-> {}]
EventsOfRange(from, to) == IF Before2(UtcOf(to), UtcOf(from)) THEN NoEvents
                           ELSE TLCEval(RangeEvents(from, to))
\* (E and A are bound by quantifiers over one element so that TLC computes
\* them once)
CalDaysOK(days, from, to) ==
  \A E \in {EventsOfRange(from, to)}, A \in {TLCEval(AstroIn(from, to))} :
    LET Days == { x.day : x \in E.u } \cup { x.day : x \in E.h } \cup { x.day : x \in E.o }
                  \cup { UtcOf(A[i].d)[1] : i \in DOMAIN A }
    IN  \A ns \in {SetToSortSeq(Days, <)} :
        /\ Len(days) = Len(ns)
        /\ \A i \in DOMAIN ns : days[i] = DayWant(ns[i], E, A)

(* The data, beside the theory of the moon: each phase is at its time, and  *)
(* none is left out, where there are data.                                 *)
Accuracy == 12                                     \* minutes
PhaseNo(ph) == CHOOSE n \in 0..3 : AstroPhase(n) = ph
MinuteOf(d) == LET u == UtcOf(d) IN Minute(u[1], u[2])
KOf(a, n) == Nearest(MinuteOf(a.d), n)
DataDay(n) == /\ n >= DayNum(1902, 1, 1) /\ n < DayNum(2033, 5, 14)
              /\ CivilYear(n) # 1970
              /\ \A i \in DOMAIN World.gaps : DayNum(World.gaps[i][1], World.gaps[i][2], World.gaps[i][3]) # n
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x > y THEN x ELSE y
OfTheMoon(moons, from, to) ==
    /\ \A i \in DOMAIN moons : moons[i].ph \in {AstroPhase(n) : n \in 0..3}
    /\ \A ks \in {TLCEval([i \in DOMAIN moons |-> KOf(moons[i], PhaseNo(moons[i].ph))])} :
       LET lo == Most(MinuteOf(from), Minute(DayNum(1901, 12, 1), 0)) + Accuracy
           hi == Least(MinuteOf(to), Minute(DayNum(2033, 6, 1), 0)) - Accuracy
       IN  /\ \A i \in DOMAIN moons : Abs(MinuteOf(moons[i].d) - PhaseAt(ks[i])) <= Accuracy
           /\ \A i \in 2..Len(ks) : ks[i - 1] < ks[i]
           /\ \A S \in {Range(ks)} :
                \A k \in (NearestK(lo) - 4)..(NearestK(hi) + 4) :
                   k \in S \/ (\A t \in {PhaseAt(k)} :
                                 (lo <= t /\ t <= hi) => ~DataDay(Epoch + t \div 1440))
(* One file of the data, as it comes                                       *)
AerisNames == <<"new moon", "first quarter", "full moon", "last quarter">>
Aeris == /\ IsEvent("aeris")
         /\ Chk("C26", /\ R.ok /\ R.success
                       /\ R.err = IF Line.ce \in (1902..1969 \cup 1971..2033) THEN "" ELSE "warn_no_data"
                       /\ \A i \in DOMAIN R.moons :
                            LET m == R.moons[i] IN
                            /\ m.code \in 0..3 /\ m.name = AerisNames[m.code + 1]
                            /\ UtcYear(m.d) = Line.ce /\ m.d[5] = 0
                            /\ m.ts = <<UtcOf(m.d)[1] - DayNum(1970, 1, 1), UtcOf(m.d)[2]>>
                       /\ OfTheMoon([i \in DOMAIN R.moons |-> [ph |-> AstroPhase(R.moons[i].code), d |-> R.moons[i].d]],
                                    <<Line.ce, 1, 1, 0, 0, 0>>, <<Line.ce, 12, 31, 86399, 0, 0>>))
         /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
CalDays == /\ IsEvent("caldays")
           /\ Chk("C12", CalDaysOK(R.days, Line.from, Line.to))
           /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
\* (SumOfParts of MC_Calendar, for a range too long to be listed here)
Parts == /\ IsEvent("parts")
         /\ Chk("C12", /\ R.whole = R.parts
                       /\ Len(R.whole) = Line.hi - Line.lo + 1
                       /\ \A i \in DOMAIN R.whole : R.whole[i].y = Line.lo + i - 1)
         /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
Astro == /\ IsEvent("astro")
         /\ Chk("C14", R.moons = AstroIn(Line.from, Line.to))
         /\ Chk("C26", OfTheMoon(R.moons, Line.from, Line.to))
         /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* One calendar day, filled step by step *)
ZeroInst == <<1, 1, 1, 0, 0, 0>>
ZeroU == [t |-> "u", d |-> ZeroInst, cal |-> 0, st |-> 0, ph |-> "", ev |-> "", sn |-> 0, tot |-> 0,
          ud |-> 0, md |-> 0, mon |-> 0, sea |-> 0, ly |-> 0, av |-> FALSE, src |-> "", com |-> ""]
ZeroH == [t |-> "h", d |-> ZeroInst, ph |-> ""]
ZeroA == [t |-> "a", d |-> ZeroInst, ph |-> ""]
FirstOr(s, z) == IF s = <<>> THEN z ELSE s[1]
ItemText(it) == CASE it.t = "u" -> UposathaText(it.ph, it.ud, it.sea, it.sn, it.tot)
                  [] it.t \in {"h", "a"} -> MoonText(it.ph)
                  [] OTHER -> it.sum
DayText(d) == ItemText(FirstOr(d.u, ZeroU)) \o ", " \o ItemText(FirstOr(d.a, ZeroA)) \o ", "
                \o ItemText(FirstOr(d.h, ZeroH))
(* the names which the JSON object of a day has: nothing for what it lacks *)
KeysOf(d) == {"Date"} \cup (IF d.u = <<>> THEN {} ELSE {"UposathaMoon"})
                \cup (IF d.h = <<>> THEN {} ELSE {"HalfMoon"}) \cup (IF d.a = <<>> THEN {} ELSE {"AstroMoon"})
                \cup (IF d.m = <<>> THEN {} ELSE {"MajorEvents"}) \cup (IF d.e = <<>> THEN {} ELSE {"Events"})
DayIs(r, d) ==
    /\ Chk("C13", /\ r.d = d.d /\ r.u = d.u /\ r.h = d.h /\ r.a = d.a /\ r.m = d.m /\ r.e = d.e
                  /\ r.gu = FirstOr(d.u, ZeroU) /\ r.gh = FirstOr(d.h, ZeroH)
                  /\ r.ga = FirstOr(d.a, ZeroA))
    /\ Chk("C23", r.str = DayText(d) /\ r.json = d /\ Range(r.keys) = KeysOf(d))
DaysAre(ds, k) == DayIs(R.day, ds[k]) /\ Chk("C13", R.all = ds)
NewDay == /\ IsEvent("newday")
          /\ day' = [i \in 1..Dflt("n", 1) |-> EmptyDay(ZeroInst)]
          /\ DaysAre(day', 1)
          /\ UNCHANGED <<ex, era, upo, uce, kat>>
AddToDay == /\ IsEvent("add")
            /\ LET k == Dflt("k", 0) + 1 IN
               /\ day' = [day EXCEPT ![k] = AddItem(@, Line.it)]
               /\ DaysAre(day', k)
            /\ UNCHANGED <<ex, era, upo, uce, kat>>
SetOnDay == /\ IsEvent("set")
            /\ LET k == Dflt("k", 0) + 1 IN
               /\ day' = [day EXCEPT ![k] = PutItem(@, Line.it)]
               /\ DaysAre(day', k)
            /\ UNCHANGED <<ex, era, upo, uce, kat>>

PlusDays(d, n) == LET c == CivilOf(DayOf(d) + n) IN <<c.y, c.m, c.d, d[4], d[5], d[6]>>
AddHalf == /\ IsEvent("addhalf")
           /\ Chk("C10", /\ R.in = Line.days /\ R.rest = IF Has(Line, "rest") THEN Line.rest ELSE <<>>
                         /\ R.out = Line.days \o HalfDays(Line.days, LAMBDA d : PlusDays(d, 8)))
           /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

(* Days sorted by their dates: the same days, the earlier first; days of    *)
(* the same instant in any order, or, sorted stably, in the order given.    *)
Earlier(a, b) == Before2(UtcOf(a.d), UtcOf(b.d))
InOrder(s) == \A i \in 1..Len(s) - 1 : ~Earlier(s[i + 1], s[i])
Place(d, s) == LET k == Cardinality({ i \in DOMAIN s : ~Earlier(d, s[i]) })
               IN  SubSeq(s, 1, k) \o <<d>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Sorted(_, _)
Sorted(s, i) == IF i = 0 THEN <<>> ELSE Place(s[i], Sorted(s, i - 1))
SortDays == /\ IsEvent("sortdays")
            /\ Chk("C12", /\ R.stable = Sorted(Line.days, Len(Line.days))
                          /\ InOrder(R.out) /\ Bag(R.out) = Bag(Line.days)
                          /\ R.n = Len(Line.days) /\ R.is)
            /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* Texts *)
Text == /\ IsEvent("text")
           \* (with rules, what the clocks say there is not known here: the
           \* instant is, and what they say may not change)
        /\ LET it == IF Has(Line, "rules") THEN [Line.it EXCEPT !.d = R.it.d] ELSE Line.it IN
           Chk("C23", /\ R.it = it /\ UtcOf(R.it.d) = UtcOf(Line.it.d) /\ R.json = it /\ R.str = ItemText(it) /\ R.date = it.d
                      /\ R.ical.fresh /\ R.ical.now /\ R.ical.allday
                      /\ R.ical.start = it.d
                      /\ UtcOf(R.ical.end) = [UtcOf(it.d) EXCEPT ![1] = @ + 1]
                      /\ R.ical.sum = ItemText(it)
                      /\ R.ical.tzid = IF Has(Line, "loc") THEN Line.loc ELSE IF it.d[6] = 0 THEN "UTC" ELSE "Z")
        /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
Label == /\ IsEvent("label")
         /\ Chk("C23",
              CASE Line.kind = "month" -> R.n = MonthNumber(Line.name)
                [] Line.kind = "season" -> R.n = SeasonNumber(Line.name)
                [] Line.kind = "calendar" -> R.n = CalendarNumber(Line.name)
                [] Line.kind = "status" -> R.n = StatusNumber(Line.name)
                [] Line.kind = "seasonname" -> R.s = SeasonText(Line.num))
         /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
(* The command line.  The recorder transcribes what was printed.           *)
(* where the run of a command ended, as Program has it *)
EndsAs(g) == R.exit = Prog!Exit(g) /\ R.disk = Prog!Disk(g) /\ R.printed = Prog!Printed(g)
CliDays == /\ IsEvent("clidays")
           /\ Chk("C24", /\ EndsAs(Line.given) /\ R.exit = 0 /\ R.ok
                         /\ \A i \in DOMAIN R.years : \A j \in DOMAIN R.years[i].days :
                               /\ ToString(R.years[i].days[j].d[1]) = R.years[i].y
                               /\ Range(R.years[i].keys[j]) = KeysOf(R.years[i].days[j])
                         /\ Once([i \in DOMAIN R.years |-> R.years[i].y])
                         /\ \A i \in DOMAIN R.years : R.years[i].days # <<>>
                         /\ CalDaysOK(FlattenSeq([i \in DOMAIN R.years |-> R.years[i].days]),
                                      Line.from, Line.to))
           /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
(* the events of a range in iCalendar form: start and end date, text; day  *)
(* by day, on each day the uposatha, then the half moon, then the rest     *)
IcalOfDay(n, E) ==
    LET w == DayWant(n, E, <<>>)
        One(it) == [start |-> <<it.d[1], it.d[2], it.d[3]>>,
                    end |-> LET c == CivilOf(n + 1) IN <<c.y, c.m, c.d>>,
                    sum |-> ItemText(it)]
        its == w.u \o w.h \o w.m
    IN  [i \in DOMAIN its |-> One(its[i])]
CliIcal == /\ IsEvent("cliical")
           /\ Chk("C24",
                \A E \in {EventsOfRange(Line.from, Line.to)} :
                LET Days == { x.day : x \in E.u } \cup { x.day : x \in E.h } \cup { x.day : x \in E.o }
                    ns == SetToSortSeq(Days, <)
                IN  /\ EndsAs(Line.given) /\ R.exit = 0 /\ R.ok
                    /\ Range(R.head) = CalendarHead /\ Once(R.head)
                    /\ R.uids                     \* present, and all different
                    /\ R.events = FlattenSeq([i \in DOMAIN ns |-> IcalOfDay(ns[i], E)]))
           /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
CliBad == /\ IsEvent("clibad")
          /\ Chk("C24", EndsAs(Line.given) /\ R.exit = 1)
          /\ UNCHANGED <<ex, era, upo, uce, kat, day>>
(* without a command *)
CliShow == /\ IsEvent("clishow")
           /\ Chk("C24", EndsAs(Line.given) /\ R.exit = 0 /\ R.from = Line.from /\ R.to = Line.to)
           /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

(* The table of years *)
Opt(b, n) == IF b THEN ToString(n) ELSE ""
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
IsoDay(n) == LET c == CivilOf(n) IN ToString(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d)
CsvRow(ce, ca) ==
    LET e == EraYear(ce) c == Cycle(ce) asalha == IsoDay(Asalha(ce, NoEx)) IN
    << ToString(ce), ToString(ce + 543), ToString(e.k), ToString(e.a), ToString(e.t),
       ToString(CyclePos(ce, 19)), Opt(IsM(c), DeltaM(ce)), ToString(CyclePos(ce, 57)),
       IF IsV(c) THEN ToString(DeltaV(ce, NoEx)) ELSE IF WouldV(c) THEN "x" ELSE "",
       asalha, IF ca = "" THEN "" ELSE IF ca = asalha THEN "OK" ELSE "FAIL" >>
(* The published dates of Asalha Puja, 1970 to 2016 (myhora.com, thaiorc.com,  *)
(* the forest sangha calendar). *)
Published == <<
  "1970-07-18", "1971-07-07", "1972-07-25", "1973-07-15", "1974-07-04",
  "1975-07-23", "1976-07-11", "1977-07-30", "1978-07-19", "1979-07-09",
  "1980-07-27", "1981-07-16", "1982-07-05", "1983-07-24", "1984-07-12",
  "1985-07-31", "1986-07-20", "1987-07-10", "1988-07-28", "1989-07-17",
  "1990-07-07", "1991-07-26", "1992-07-14", "1993-08-02", "1994-07-22",
  "1995-07-11", "1996-07-29", "1997-07-19", "1998-07-08", "1999-07-27",
  "2000-07-16", "2001-07-05", "2002-07-24", "2003-07-13", "2004-07-31",
  "2005-07-21", "2006-07-10", "2007-07-29", "2008-07-17", "2009-07-07",
  "2010-07-26", "2011-07-15", "2012-08-02", "2013-07-22", "2014-07-11",
  "2015-07-30", "2016-07-19" >>
PublishedBy(ce) ==
    CASE ce < 1970 \/ ce > 2016 -> ""
      [] ce <= 1986 -> "myhora.com"
      [] ce \in 1994..1997 -> "thaiorc.com, myhora.com"
      [] ce = 2001 -> "fs-cal, thaiorc.com"
      [] ce <= 2003 -> "thaiorc.com"
      [] ce <= 2007 -> "fs-cal"
      [] ce <= 2015 -> "fs-cal, bot.or.th"
      [] OTHER -> "fs-cal, bot.or.th, myhora.com"
Remark(ce) ==
    CASE ce \in {1978, 1984} -> "adhikav{101}ra is missing from the calendar"
      [] ce = 1994 -> "calendar is missing adhikav{101}ra, passing with exception"
      [] ce = 1997 -> "missing adhikav{101}ra was added back here, passing with exception"
      [] OTHER -> ""
Csv == /\ IsEvent("csv")
       /\ Chk("C25", /\ R.exit = 0
                     /\ R.head = <<"CE year", "BE year", "K", "A", "T", "nM", "dM", "nV", "dV",
                                   "Asalha by Calc.", "Asalha in Calendar", "test", "source", "comments">>
                     /\ Len(R.rows) = 72
                     /\ \A i \in DOMAIN R.rows :
                          LET r == R.rows[i] IN
                          /\ Len(r) = 14
                          /\ SubSeq(r, 1, 10) \o <<r[12]>> = CsvRow(1969 + i, r[11])
                          /\ r[11] = IF i <= 47 THEN Published[i] ELSE ""
                          /\ r[13] = PublishedBy(1969 + i) /\ r[14] = Remark(1969 + i))
       /\ UNCHANGED <<ex, era, upo, uce, kat, day>>

-----------------------------------------------------------------------------
TraceInit == /\ l = 1 /\ ex = NoEx /\ era = Nil /\ upo = Nil /\ uce = 0
             /\ kat = Nil /\ day = <<>>
TraceNext == \/ Config \/ Defaults \/ Year \/ Day \/ YearDays \/ Date \/ Dates \/ Ral \/ Deg \/ Norm \/ Keep
             \/ Chain \/ NextU \/ Solar \/ CalDays \/ Parts \/ Astro \/ Aeris
             \/ NewDay \/ AddToDay \/ SetOnDay \/ AddHalf \/ SortDays \/ Text \/ Label
             \/ CliDays \/ CliIcal \/ CliBad \/ CliShow \/ Csv
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* All lines were explained.  Otherwise the first one that was not is shown. *)
TraceAccepted ==
    LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("REJECTED " \o ToString(d)) /\ FALSE
=============================================================================

------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* The texts the library shows.  Non-ASCII letters are written {hex}, as   *)
(* the recorder writes them.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

SeasonText(n) == CASE n = 1 -> "Hemanta" [] n = 2 -> "Gimha"
                   [] n = 3 -> "Vass{101}na" [] OTHER -> ""
PhaseText(p) == CASE p = "new" -> "New" [] p = "full" -> "Full"
                  [] p = "waxing" -> "Waxing" [] p = "waning" -> "Waning"
                  [] OTHER -> ""
ObservanceText(o) ==
    CASE o = "magha puja" -> "M{101}gha P{16b}j{101}"
      [] o = "vesakha puja" -> "Ves{101}kha P{16b}j{101}"
      [] o = "asalha puja" -> "{100}s{101}{1e37}ha P{16b}j{101}"
      [] o = "first day of vassa" -> "First day of Vassa"
      [] o = "pavarana day" -> "Pav{101}ra{1e47}{101} Day"
      [] o = "last day of vassa" -> "Last day of Vassa"
      [] OTHER -> ""

(* What an iCalendar object says of itself *)
CalendarHead ==
    LET name == "Uposatha Moondays (Mah{101}nik{101}ya)" IN
    { <<"VERSION", "2.0">>, <<"PRODID", "Uposatha Moondays Mah{101}nik{101}ya EN">>,
      <<"URL", "http://splendidmoons.github.io/ical/mahanikaya.ical">>,
      <<"NAME", name>>, <<"X-WR-CALNAME", name>>, <<"DESCRIPTION", name>>, <<"X-WR-CALDESC", name>>,
      <<"REFRESH-INTERVAL", "PT12H">>, <<"X-PUBLISHED-TTL", "PT12H">>,
      <<"COLOR", "244:196:48">>, <<"CALSCALE", "GREGORIAN">>, <<"METHOD", "PUBLISH">> }

(* the code of a phase in the astronomical data *)
AstroPhase(c) == CASE c = 0 -> "new" [] c = 1 -> "waxing" [] c = 2 -> "full" [] c = 3 -> "waning"

MoonText(p) == IF p = "" THEN "" ELSE PhaseText(p) \o " Moon"
UposathaText(p, ud, sea, sn, st) ==
    IF p = "" THEN ""
    ELSE PhaseText(p) \o " Moon - " \o ToString(ud) \o " day " \o SeasonText(sea)
           \o " " \o ToString(sn) \o "/" \o ToString(st)

MonthNumber(name) ==
    CASE name = "magasira" -> 1 [] name = "phussa" -> 2 [] name = "magha" -> 3
      [] name = "phagguna" -> 4 [] name = "citta" -> 5 [] name = "vesakha" -> 6
      [] name = "jettha" -> 7 [] name = "asalha" -> 8 [] name = "2nd asalha" -> 13
      [] name = "savana" -> 9 [] name = "bhaddapada" -> 10
      [] name = "assayuja" -> 11 [] name = "kattika" -> 12 [] OTHER -> 0
SeasonNumber(name) == CASE name = "hemanta" -> 1 [] name = "gimhana" -> 2
                        [] name = "vassana" -> 3 [] OTHER -> 0
CalendarNumber(name) == CASE name = "dhammayut" -> 1 [] name = "srilanka" -> 2
                          [] name = "myanmar" -> 3 [] OTHER -> 0
StatusNumber(name) == CASE name = "predicted" -> 1 [] name = "confirmed" -> 2
                        [] OTHER -> 0
=============================================================================

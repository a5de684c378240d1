------------------------------- MODULE Angles -------------------------------
(***************************************************************************)
(* Rasi : angsa : lipda notation.  Angles enter as n/den degrees; 64ths of *)
(* a degree are exact in floating point, others are used only where the    *)
(* minute they fall in does not hang on the rounding.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RasiD(n, den)  == n \div (30 * den)
AngsaD(n, den) == (n \div den) - 30 * RasiD(n, den)
LipdaD(n, den) == ((n % den) * 60) \div den

(* back to degrees, in deg4, floored to four decimals *)
ToDeg4(x, y, z) == (30 * x + y) * 10000 + ((z * 10000) \div 60)

RalString(x, y, z) == ToString(x) \o ":" \o ToString(y) \o "{b0}" \o ToString(z) \o "'"

(* reduced to one turn; 0 and 360 degrees both stay *)
Norm64(n) == IF n >= 0 /\ n <= 23040 THEN n ELSE n % 23040
=============================================================================

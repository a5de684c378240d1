----------------------------- MODULE MC_Angles -----------------------------
(* Notation and back, over every 64th of a degree of Turns turns each way.   *)
EXTENDS Angles
CONSTANT Turns
VARIABLE n
Init == n = -Turns * 23040
Next == n < Turns * 23040 /\ n' = n + 1
Spec == Init /\ [][Next]_n
\* the notation stays below the angle and within a minute of it
Deg4 == ToDeg4(RasiD(n, 64), AngsaD(n, 64), LipdaD(n, 64))
Back == LET d == (n \div 64) * 10000 + ((n % 64) * 10000) \div 64 IN Deg4 <= d /\ d - Deg4 <= 168
Parts == AngsaD(n, 64) \in 0..29 /\ LipdaD(n, 64) \in 0..59
OneTurn == Norm64(n) \in 0..23040 /\ (Norm64(n) - n) % 23040 = 0
Idempotent == Norm64(Norm64(n)) = Norm64(n)
=============================================================================

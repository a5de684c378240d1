------------------------------ MODULE MC_EraFar ------------------------------
(* Far from the beginning: the values of a year as EraFar gives them, and    *)
(* those of the next, are one tick of the clock apart.                       *)
EXTENDS Era
CONSTANTS Starts, Steps
VARIABLES f, n
Init == n = 0 /\ \E ce \in Starts : f = EraFar(ce)
Next == n < Steps /\ n' = n + 1 /\ f' = EraFar(f.ce + 1)
Spec == Init /\ [][Next]_<<f, n>>
Cyc == [k |-> f.k, a |-> f.a, t |-> f.t]
Ranges == /\ f.h2 \in 0..20759 /\ f.m2 \in 0..702 /\ f.k \in 1..800
          /\ f.a \in 0..691 /\ f.t \in 0..29 /\ f.u \in 0..3231
CyclicForm == CycleFar(f.ce) = Cyc
Tick == [][ LET d  == SolarDays(Cyc)
                c  == SuccCycle(Cyc)
                h  == f.h2 + d
                ts == 30 * f.m2 + f.t + d + (f.a + 11 * d) \div 692
            IN  /\ [k |-> f'.k, a |-> f'.a, t |-> f'.t] = c
                /\ f'.h1 = f.h1 + h \div 20760 /\ f'.h2 = h % 20760
                /\ f'.u = (f.u + d) % 3232
                /\ f'.m1 = f.m1 + (ts \div 30) \div 703 /\ f'.m2 = (ts \div 30) % 703
          ]_<<f, n>>
=============================================================================

------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Sessions: sequences of configurations and calls, from which the         *)
(* recorder's sessions are drawn (tlc -simulate) and on which History is   *)
(* checked.  The library is modelled with a cache, which is what goes      *)
(* wrong in practice: a result may be kept and given again.  With the      *)
(* cache keyed by configuration and call, what callers see is a function   *)
(* of the two (Functional); with KeyedByConfig = FALSE, keyed by the call  *)
(* alone, it is not, and TLC finds the shortest session which shows it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NKeys, NConfigs, Depth, KeyedByConfig, Emit
VARIABLES cfg, cache, hist
Keys == 1..NKeys
Configs == 1..NConfigs
vars == <<cfg, cache, hist>>
Value(c, k) == <<c, k>>
CacheKey(k) == IF KeyedByConfig THEN <<cfg, k>> ELSE <<k>>
Init == cfg = 1 /\ cache = <<>> /\ hist = <<>>
SetConfig(c) == /\ c # cfg /\ cfg' = c /\ UNCHANGED cache
                /\ hist' = Append(hist, [c |-> c, k |-> 0, v |-> <<>>])
Call(k) == LET ck == CacheKey(k)
               v == IF ck \in DOMAIN cache THEN cache[ck] ELSE Value(cfg, k)
           IN  /\ hist' = Append(hist, [c |-> cfg, k |-> k, v |-> v])
               /\ \/ cache' = (ck :> v) @@ cache       \* kept
                  \/ cache' = cache                    \* or not
               /\ UNCHANGED cfg
Evict == cache # <<>> /\ cache' = <<>> /\ UNCHANGED <<cfg, hist>>
Next == /\ Len(hist) < Depth
        /\ (\E c \in Configs : SetConfig(c)) \/ (\E k \in Keys : Call(k)) \/ Evict
Spec == Init /\ [][Next]_vars
Functional == \A i, j \in DOMAIN hist :
    hist[i].k # 0 /\ hist[i].c = hist[j].c /\ hist[i].k = hist[j].k => hist[i].v = hist[j].v
EmitDone == (Emit /\ Len(hist) = Depth) =>
    PrintT("@" \o ToJson([i \in DOMAIN hist |-> <<hist[i].c, hist[i].k>>]))
=============================================================================

------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* The library as its callers see it over time: a configuration (the       *)
(* exceptions), which callers may change, and calls.  What a call returns  *)
(* is a function of the call and the configuration alone - not of the      *)
(* calls made before it, by whom, or at the same time.                     *)
(*                                                                         *)
(* memo is what is known of that function: the result of every (configura- *)
(* tion, call) pair seen so far, in this process or another.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, memo
hvars == <<cfg, memo>>
HInit == cfg = "none" /\ memo = <<>>
SetConfig(c) == cfg' = c /\ UNCHANGED memo
Observe(key, res) ==
    LET k == <<cfg, key>> IN
    /\ IF k \in DOMAIN memo THEN memo[k] = res /\ UNCHANGED memo
       ELSE memo' = memo @@ (k :> res)
    /\ UNCHANGED cfg
=============================================================================

---------------------------- MODULE MC_DayEntry ----------------------------
(* Every sequence of up to MaxOps additions and settings on a day.           *)
EXTENDS DayEntry, FiniteSets, TLC, Json
CONSTANT MaxOps, Ids, Emit
VARIABLES d, ops
Items == { [t |-> k, id |-> id, d |-> 100 + id] : k \in {"u", "h", "a", "m", "e"}, id \in Ids }
Init == d = EmptyDay(0) /\ ops = <<>>
Add(it) == d' = AddItem(d, it) /\ ops' = Append(ops, <<"add", it>>)
Set(it) == it.t \in {"u", "h", "a"} /\ d' = PutItem(d, it) /\ ops' = Append(ops, <<"set", it>>)
Next == Len(ops) < MaxOps /\ \E it \in Items : Add(it) \/ Set(it)
Spec == Init /\ [][Next]_<<d, ops>>
AtMostOne == Len(d.u) <= 1 /\ Len(d.h) <= 1 /\ Len(d.a) <= 1
(* nothing put on the day as an event is lost, and the order is kept *)
Put(k) == SelectSeq(ops, LAMBDA o : o[2].t = k)
EventsKept == /\ Len(d.m) = Len(Put("m")) /\ \A j \in DOMAIN d.m : d.m[j] = Put("m")[j][2]
              /\ Len(d.e) = Len(Put("e")) /\ \A j \in DOMAIN d.e : d.e[j] = Put("e")[j][2]
LastWins == \A k \in {"u", "h", "a"} :
    LET p == Put(k) IN IF p = <<>> THEN d[k] = <<>> ELSE d[k] = << p[Len(p)][2] >>
Adds == SelectSeq(ops, LAMBDA o : o[1] = "add")
DatedByLastAdd == IF Adds = <<>> THEN d.d = 0 ELSE d.d = Adds[Len(Adds)][2].d
(* printed for the recorder to replay *)
EmitDone == (Emit /\ Len(ops) = MaxOps) => PrintT("@" \o ToJson(ops))
=============================================================================

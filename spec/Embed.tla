-------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* The embedded data files.  Readers call with a name; the first reader of *)
(* a file unpacks it while the others wait (once); every call returns the  *)
(* whole content, or "absent" for a name that is no file.                  *)
(*                                                                         *)
(* content is what the file must hold.  Unpacking is two steps, so that a  *)
(* reader that did not wait would see the file half unpacked.              *)
(*                                                                         *)
(* A caller may write over what it got.  With Shared (callers are handed   *)
(* the library's own memory) that takes the file apart for everyone else;  *)
(* the library must behave as with Shared = FALSE.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Readers, Files, Names, MaxCalls, Shared
VARIABLES store,    \* file -> "packed" | "unpacking" | "whole" | "spoiled"
          call,     \* reader -> the name being read, or "idle"
          result,   \* reader -> the last result
          calls     \* number of calls made

vars == <<store, call, result, calls>>

Init == /\ store = [f \in Files |-> "packed"]
        /\ call = [r \in Readers |-> "idle"]
        /\ result = [r \in Readers |-> <<"none">>]
        /\ calls = 0

Call(r, n) == /\ call[r] = "idle" /\ calls < MaxCalls
              /\ call' = [call EXCEPT ![r] = n]
              /\ result' = [result EXCEPT ![r] = <<"none">>]
              /\ calls' = calls + 1
              /\ UNCHANGED store
Begin(r) == /\ call[r] \in Files /\ store[call[r]] = "packed"
            /\ store' = [store EXCEPT ![call[r]] = "unpacking"]
            /\ UNCHANGED <<call, result, calls>>
\* one unpacker per file at a time; it finishes whatever the others do
Finish(f) == /\ store[f] = "unpacking"
             /\ store' = [store EXCEPT ![f] = "whole"]
             /\ UNCHANGED <<call, result, calls>>
Return(r) == /\ call[r] # "idle"
             /\ IF call[r] \in Files
                THEN /\ store[call[r]] = "whole"
                     /\ result' = [result EXCEPT ![r] = <<"content", call[r]>>]
                ELSE result' = [result EXCEPT ![r] = <<"absent">>]
             /\ call' = [call EXCEPT ![r] = "idle"]
             /\ UNCHANGED <<store, calls>>
Scribble(r) == /\ call[r] = "idle" /\ result[r][1] = "content"
               /\ store' = IF Shared THEN [store EXCEPT ![result[r][2]] = "spoiled"] ELSE store
               /\ result' = [result EXCEPT ![r] = <<"scribbled">>]
               /\ UNCHANGED <<call, calls>>

Next == \/ \E r \in Readers : (\E n \in Names : Call(r, n)) \/ Begin(r) \/ Return(r) \/ Scribble(r)
        \/ \E f \in Files : Finish(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E r \in Readers : Begin(r) \/ Return(r))
             /\ WF_vars(\E f \in Files : Finish(f))

TypeOK == /\ store \in [Files -> {"packed", "unpacking", "whole"}]
          /\ \A r \in Readers : result[r] \in {<<"none">>, <<"absent">>, <<"scribbled">>}
                                  \/ result[r] \in {<<"content", f>> : f \in Files}
(* Nobody gets a file that is not whole, and a file never comes apart. *)
OnlyWhole == \A r \in Readers : \A f \in Files :
                result[r] = <<"content", f>> => store[f] = "whole"
StaysWhole == [][\A f \in Files : store[f] = "whole" => store'[f] = "whole"]_vars
(* Every call returns. *)
Returns == \A r \in Readers : (call[r] # "idle") ~> (call[r] = "idle")
=============================================================================

------------------------------ MODULE CopiesGen ------------------------------
(* The schedules of CopiesMC alone: who is copied and called when.  Prints *)
(* each of them for the conformance run.                                   *)
EXTENDS Util, Json, TLC

CONSTANTS Moves, MaxTables

VARIABLES tables, path
vars == <<tables, path>>

Init == tables = 1 /\ path = <<>>
Copy(o) == tables < MaxTables /\ tables' = tables + 1 /\ path' = Append(path, <<"copy", o>>)
Call(o) == tables' = tables /\ path' = Append(path, <<"call", o>>)
Next == Len(path) < Moves /\ \E o \in 1..tables : Copy(o) \/ Call(o)
Spec == Init /\ [][Next]_vars
Emit == Len(path) = Moves /\ tables > 1 => PrintT("GEN " \o ToJson([sched |-> path]))
=============================================================================

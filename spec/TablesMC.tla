------------------------------ MODULE TablesMC -------------------------------
(* All schedules of Objects objects with Calls calls each; the results are *)
(* abstract.  seen[o] is what o has returned so far under the schedule.    *)
(* Prints every complete schedule for the conformance run.                 *)
EXTENDS Tables, Json

CONSTANTS Objects, Calls

Obj == 1..Objects
Alone == [o \in Obj |-> [n \in 1..Calls |-> <<o, n>>]]

VARIABLES pos, seen, path
vars == <<pos, seen, path>>

Init == pos = FreshAt(Obj) /\ seen = [o \in Obj |-> <<>>] /\ path = <<>>
Call(o) == /\ CanCall(Alone, pos, o)
           /\ pos' = Called(pos, o)
           /\ seen' = [seen EXCEPT ![o] = Append(@, NextResult(Alone, pos, o))]
           /\ path' = Append(path, o)
Next == \E o \in Obj : Call(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Independent == \A o \in Obj : IsPrefix(seen[o], Alone[o])
OnlyOneMoves == [][\E o \in Obj : \A p \in Obj \ {o} : seen'[p] = seen[p]]_vars
Finishes == <>AllDone(Alone, pos)
Emit == AllDone(Alone, pos) => PrintT("GEN " \o ToJson([sched |-> path]))
=============================================================================

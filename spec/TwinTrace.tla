------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Trace specification of independence and reproducibility (C23).  A line  *)
(* of the file TRACE holds alone (per object, the results of its calls     *)
(* when run by itself in a process of its own, as text) and ev, the calls  *)
(* made when all objects share a process, o the object, res the result.    *)
(***************************************************************************)
EXTENDS Tables, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, pos
vars == <<t, l, pos>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ pos = FreshAt(DOMAIN Traces[t].alone)

Report(ok, at) ==
    IF ok THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> at, bad |-> <<"C23">>]))

Consume ==
    /\ l <= Len(Traces[t].ev)
    /\ LET e == Traces[t].ev[l]
           alone == Traces[t].alone
       IN IF CanCall(alone, pos, e.o) /\ NextResult(alone, pos, e.o) = e.res
          THEN l' = l + 1 /\ pos' = Called(pos, e.o)
          ELSE Report(FALSE, l) /\ l' = Len(Traces[t].ev) + 2 /\ pos' = pos
    /\ t' = t
Finish ==
    /\ l = Len(Traces[t].ev) + 1
    /\ Report(AllDone(Traces[t].alone, pos), l)
    /\ l' = l + 1 /\ UNCHANGED <<t, pos>>
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================

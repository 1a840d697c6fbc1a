----------------------------- MODULE LookTrace ------------------------------
(***************************************************************************)
(* Trace specification of looking (C26).  A line of the file TRACE holds   *)
(* alone (the results of all calls when nobody looks, as text) and ev, the *)
(* calls and looks of several other runs r of the same thing from the same *)
(* random seed: k is "call" or the kind of look, res what came of it, bad  *)
(* whether an exception was raised.                                        *)
(***************************************************************************)
EXTENDS Looks, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, pos, view
vars == <<t, l, pos, view>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ pos = [r \in 1..Traces[t].runs |-> 0] /\ view = NoViews

Report(at) == PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> at, bad |-> <<"C26">>]))

EventOK(alone, e) ==
    IF e.k = "call" THEN pos[e.r] < Len(alone) /\ CallGives(alone, pos[e.r]) = e.res
    ELSE /\ LookOK(e.k, e.bad, e.res)
         /\ ShowsAgain(view, pos[e.r], e.k, e.res)
         /\ ShowsAlike(view, pos[e.r], e.k, e.res)

Consume ==
    /\ l <= Len(Traces[t].ev)
    /\ LET e == Traces[t].ev[l]
       IN IF EventOK(Traces[t].alone, e)
          THEN /\ l' = l + 1
               /\ pos' = IF e.k = "call" THEN [pos EXCEPT ![e.r] = @ + 1] ELSE pos
               /\ view' = IF e.k = "call" THEN view ELSE Remember(view, pos[e.r], e.k, e.res)
          ELSE Report(l) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<pos, view>>
    /\ t' = t
Finish ==
    /\ l = Len(Traces[t].ev) + 1
    /\ IF \A r \in DOMAIN pos : pos[r] = Len(Traces[t].alone) THEN TRUE ELSE Report(l)
    /\ l' = l + 1 /\ UNCHANGED <<t, pos, view>>
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================

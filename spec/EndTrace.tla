------------------------------ MODULE EndTrace ------------------------------
(***************************************************************************)
(* Trace specification of hands coming to their end (C27), by what the     *)
(* recorded calls show alone: independent of the rest of the rules, so     *)
(* that a hand which strays from them is still followed to its end.        *)
(***************************************************************************)
EXTENDS Ends, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

(* h as in Ends; ob the last observation of the running hand               *)
VARIABLES t, l, live, h, ob
vars == <<t, l, live, h, ob>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ live = FALSE /\ h = NoActs /\ ob = <<>>

Report(ok) ==
    IF ok THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> l, bad |-> <<"C27">>,
                                   streets |-> Traces[t].cfg.ns, h |-> h]))

Deal(e) == /\ live' = TRUE /\ h' = NoActs /\ ob' = e.ob

(* an observation in which somebody has the turn *)
Running(o) == o.a >= 0 /\ o.a < Len(o.com)

Turn(e) ==
    IF e.x # "" THEN Report(FALSE) /\ live' = FALSE /\ UNCHANGED <<h, ob>>
    ELSE IF \A i \in DOMAIN e.d : e.d[i] THEN live' = FALSE /\ UNCHANGED <<h, ob>>
    ELSE LET raised == ob.com[ob.a + 1] + (e.ob.pot - ob.pot) > MaxSeq(ob.com)
             next == Acts(h, ob.a, raised)
             ok == Ending(next, Traces[t].cfg.ns) /\ Running(e.ob)
         IN Report(ok) /\ live' = ok /\ h' = next /\ ob' = e.ob

Consume ==
    /\ l <= Len(Traces[t].ev)
    /\ LET e == Traces[t].ev[l]
       IN IF e.o = "reset" /\ e.x = "" /\ Running(e.ob) THEN Deal(e)
          ELSE IF e.o = "step" /\ live THEN Turn(e)
          ELSE UNCHANGED <<live, h, ob>>
    /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Consume]_vars
=============================================================================

------------------------------ MODULE PortTrace ------------------------------
(***************************************************************************)
(* Trace specification of tables in browsers side by side (C29).           *)
(*   op    what was done, and x: the error it was refused with             *)
(*   look  what browsers find at each address then, and where anything     *)
(*         waits for connections (0: at another address)                   *)
(***************************************************************************)
EXTENDS Ports, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Refused == "RenderInitializationError"

VARIABLES t, l, w
vars == <<t, l, w>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ w = Empty(Traces[t].a, Traces[t].t)

After(op) == CASE op[1] = "open" -> Open(w, op[2], op[3])
               [] op[1] = "close" -> Close(w, op[2])
               [] op[1] = "show" -> Show(w, op[2], op[3])
               [] op[1] = "come" -> Come(w, op[3])
               [] op[1] = "go" -> Go(w, op[3])
Good(e) ==
    IF e.o = "look" THEN e.seen = Seen(w) /\ ToSet(e.waits) \subseteq Taken(w)
    ELSE e.x = (IF e.op[1] = "open" /\ ~Opens(w, e.op[2], e.op[3]) THEN Refused ELSE "")

Report(good) ==
    IF good THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> l, bad |-> <<"C29">>, want |-> Seen(w)]))

Consume == /\ l <= Len(Traces[t].ev)
           /\ LET e == Traces[t].ev[l]
                  good == Good(e)
              IN /\ Report(good)
                 /\ w' = IF good /\ e.o = "op" THEN After(e.op) ELSE w
                 /\ l' = IF good THEN l + 1 ELSE Len(Traces[t].ev) + 1
           /\ t' = t
Spec == Init /\ [][Consume]_vars
=============================================================================

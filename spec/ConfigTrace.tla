----------------------------- MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* Trace specification of building tables (C21): one series of spelled     *)
(* configurations, or shipped ones, per line of the file TRACE.            *)
(*   build  g the spelling, x the error or "", kept: the arguments were    *)
(*          left as they were                                              *)
(*   play   cfg, the meaning used; ok: a table built from the spelling did *)
(*          exactly what one built from its meaning did                    *)
(*   hand   the size k of hands tried with an evaluator, x the error       *)
(*   game   the words of a shipped name and its configuration              *)
(***************************************************************************)
EXTENDS Config, Games, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(Traces) /\ l = 1

Judge(e) ==
    CASE e.o = "build" ->
           LET errs == Refusals(e.g)
           IN Blame(e.kept /\ (IF errs = {} THEN e.x = "" ELSE e.x \in errs), {"C21"})
      [] e.o = "play" -> Blame(e.ok /\ e.kept /\ Refusals(e.g) = {} /\ e.cfg = Meaning(e.g), {"C21"})
      [] e.o = "hand" -> Blame(e.x = (IF e.k \in 1..5 THEN "" ELSE "InvalidHandSizeError"), {"C21"})
      [] e.o = "game" -> Blame(GameOK(e.words, e.cfg), {"C21"})
      [] e.o = "fact" -> Blame(e.ok, {e.id})

Report(bad) ==
    IF bad = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> l, bad |-> SetToSeq(bad)]))

Consume == /\ l <= Len(Traces[t].ev)
           /\ Report(Judge(Traces[t].ev[l]))
           /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Consume]_vars
=============================================================================

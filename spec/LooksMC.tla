------------------------------ MODULE LooksMC -------------------------------
(* All sequences of Length calls and looks at an object; the results are    *)
(* abstract.  val is the state of the object, which calls change and looks  *)
(* must not.  Prints every sequence for the conformance run.                *)
EXTENDS Looks, Json

CONSTANTS Length, Kinds

Alone == [n \in 1..Length |-> n]

VARIABLES val, pos, view, got, path
vars == <<val, pos, view, got, path>>

Init == val = 0 /\ pos = 0 /\ view = NoViews /\ got = <<>> /\ path = <<>>
Call == /\ Len(path) < Length
        /\ val' = val + 1 /\ pos' = pos + 1
        /\ got' = Append(got, CallGives(Alone, pos))
        /\ path' = Append(path, "call") /\ UNCHANGED view
Look(k) == /\ Len(path) < Length
           /\ view' = Remember(view, pos, k, <<val, k>>)
           /\ path' = Append(path, k) /\ UNCHANGED <<val, pos, got>>
Next == Call \/ \E k \in Kinds : Look(k)
Spec == Init /\ [][Next]_vars

(* the calls give what they give when nobody looks *)
Unmoved == IsPrefix(got, Alone)
(* a view says what the state was, and says it again *)
Faithful == \A x \in DOMAIN view : view[x] = <<x[1], x[2]>>
Repeatable == \A k \in Kinds : ShowsAgain(view, pos, k, <<val, k>>)
Emit == Len(path) = Length => PrintT("GEN " \o ToJson([sched |-> path]))
=============================================================================

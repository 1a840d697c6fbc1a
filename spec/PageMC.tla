------------------------------- MODULE PageMC --------------------------------
(* Any states in any order: the page shows the last one.                   *)
EXTENDS Page

N == 2  NH == 1  NC == 1
\* amounts stand for themselves: those of a state change together
States == {[act |-> a, hole |-> h, st |-> m, com |-> m, board |-> b, pot |-> k - 1, a |-> t, but |-> k] :
           a \in [1..N -> BOOLEAN], h \in [1..N -> {<<3>>, <<30>>}], m \in {<<0, 1>>, <<1, 0>>},
           b \in {<<>>, <<5>>, <<18>>}, t \in 0..N, k \in 1..N}

VARIABLES page, last
vars == <<page, last>>
Init == page = Fresh(N, NH, NC) /\ last = <<>>
Receive(x) == page' = Received(N, NH, NC, page, x) /\ last' = <<x>>
Next == \E x \in States : Receive(x)
Spec == Init /\ [][Next]_vars
LastOnly == last # <<>> => Seen(page) = Shown(N, NH, NC, last[1])
=============================================================================

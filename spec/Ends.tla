-------------------------------- MODULE Ends --------------------------------
(***************************************************************************)
(* Why a hand comes to its end (C27): within a betting round nobody acts   *)
(* twice unless somebody raised in between, and there are only so many     *)
(* rounds.  since is who has acted since the last raise or since a round   *)
(* last must have begun, cuts how often one must have begun in between.    *)
(* Each raise takes at least one chip, so that cuts <= streets - 1 bounds  *)
(* the number of actions.                                                  *)
(***************************************************************************)
EXTENDS Util

NoActs == [since |-> {}, cuts |-> 0]
Acts(h, i, raised) ==
    IF raised THEN [since |-> {i}, cuts |-> IF i \in h.since THEN h.cuts + 1 ELSE h.cuts]
    ELSE IF i \in h.since THEN [since |-> {i}, cuts |-> h.cuts + 1]
    ELSE [h EXCEPT !.since = @ \cup {i}]
Ending(h, streets) == h.cuts <= streets - 1
=============================================================================

------------------------------- MODULE DeckMC --------------------------------
(* All histories of a small deck: named actions Draw, Shuffle, Trick,      *)
(* Untrick, Look.  dealt: cards drawn since the last shuffle.              *)
EXTENDS Deck

CONSTANTS S, R, Depth

VARIABLES d, dealt, n, last
vars == <<d, dealt, n, last>>

Full == DeckSet([suits |-> S, ranks |-> R])
TrickOrders == UNION {SetToSeqs(x) : x \in SUBSET Full}

Init == d = FreshDeck(S, R) /\ dealt = <<>> /\ n = 0 /\ last = "new"
Tick(a) == n < Depth /\ n' = n + 1 /\ last' = a
DoDraw == /\ Tick("draw")
          /\ \E m \in 0..(Cardinality(Full) + 1) :
               \E cards \in UNION {SetToSeqs(x) : x \in SUBSET (ToSet(d.top) \cup d.pool)} :
                 DrawOK(d, m, cards) /\ d' = AfterDraw(d, cards) /\ dealt' = dealt \o cards
DoShuffle == Tick("shuffle") /\ d' = Shuffle(d) /\ dealt' = <<>>
DoTrick == Tick("trick") /\ \E q \in TrickOrders : d' = Trick(d, q) /\ UNCHANGED dealt
DoUntrick == Tick("untrick") /\ d' = Untrick(d) /\ UNCHANGED dealt
Look == Tick("look") /\ \E q \in Orders(d) : ShowOK(d, q) /\ d' = AfterShow(d, q) /\ UNCHANGED dealt
Next == DoDraw \/ DoShuffle \/ DoTrick \/ DoUntrick \/ Look
Spec == Init /\ [][Next]_vars

EachCardOnce ==
    /\ IsInjective(dealt) /\ IsInjective(d.top)
    /\ ToSet(dealt) \cap (ToSet(d.top) \cup d.pool) = {}
    /\ ToSet(d.top) \cap d.pool = {}
    /\ ToSet(dealt) \cup ToSet(d.top) \cup d.pool = Full
TrickHonoured ==
    last = "shuffle" => \A q \in Orders(d) : SubSeq(q, 1, Len(d.trick)) = d.trick
AnyOrder == (last = "shuffle" /\ d.trick = <<>>) => Orders(d) = SetToSeqs(Full)
=============================================================================

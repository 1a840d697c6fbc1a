-------------------------------- MODULE Deck ---------------------------------
(***************************************************************************)
(* A deck of cards (C18).  State d:                                        *)
(*   s, r    suits and ranks                                               *)
(*   top     cards known to be on top of the deck, in order                *)
(*   pool    the cards below, in unknown order                             *)
(*   trick   the order given by trick, or <<>>                             *)
(* A shuffle leaves the order open except for the tricked cards; what is   *)
(* drawn or shown later settles it.                                        *)
(***************************************************************************)
EXTENDS HandRank

AllCards(d) == DeckSet([suits |-> d.s, ranks |-> d.r])

FreshDeck(s, r) ==
    [s |-> s, r |-> r, top |-> <<>>, trick |-> <<>>,
     pool |-> DeckSet([suits |-> s, ranks |-> r])]

SizeDeck(d) == Len(d.top) + Cardinality(d.pool)

Shuffle(d) == [d EXCEPT !.top = d.trick, !.pool = AllCards(d) \ ToSet(d.trick)]
Trick(d, cards) == [d EXCEPT !.trick = cards]
Untrick(d) == [d EXCEPT !.trick = <<>>]

(* cards is a possible result of drawing n *)
DrawOK(d, n, cards) ==
    LET m == Min2(n, SizeDeck(d))
        k == Min2(m, Len(d.top))
    IN /\ Len(cards) = m
       /\ \A i \in 1..k : cards[i] = d.top[i]
       /\ \A i \in (k + 1)..m : cards[i] \in d.pool
       /\ IsInjective(cards)
AfterDraw(d, cards) ==
    LET k == Min2(Len(cards), Len(d.top))
    IN [d EXCEPT !.top = SubSeq(@, k + 1, Len(@)),
                 !.pool = @ \ ToSet(cards)]

(* cards is the order shown of the whole deck *)
ShowOK(d, cards) == Len(cards) = SizeDeck(d) /\ DrawOK(d, Len(cards), cards)
AfterShow(d, cards) == [d EXCEPT !.top = cards, !.pool = {}]

(* all orders the deck may be in *)
Orders(d) == {d.top \o q : q \in SetToSeqs(d.pool)}

(* the documented refusals *)
DeckErrors(s, r) == (IF r < 1 \/ r > 13 THEN {"InvalidRankError"} ELSE {})
                    \cup (IF s < 1 \/ s > 4 THEN {"InvalidSuitError"} ELSE {})
=============================================================================

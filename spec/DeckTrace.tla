------------------------------ MODULE DeckTrace ------------------------------
(***************************************************************************)
(* Trace specification of decks and cards (C18, C19).  One deck or one     *)
(* collection of card facts per line of the file TRACE.                    *)
(***************************************************************************)
EXTENDS Deck, Card, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, d, stop
vars == <<t, l, d, stop>>

Nothing == [s |-> 0, r |-> 0, top |-> <<>>, pool |-> {}, trick |-> <<>>]
Init == t \in 1..Len(Traces) /\ l = 1 /\ d = Nothing /\ stop = FALSE

Result(z, bad, st) == [d |-> z, bad |-> bad, stop |-> st]
Only(ok, z) == Result(z, Blame(ok, {"C18"}), ~ok)

Apply(e) ==
    CASE e.o = "new" ->
           LET errs == DeckErrors(e.s, e.r)
           IN IF errs # {} THEN Result(d, Blame(e.x \in errs, {"C18", "C21"}), TRUE)
              ELSE Only(e.x = "", FreshDeck(e.s, e.r))
      [] e.o = "draw" ->
           Only(e.x = "" /\ DrawOK(d, e.n, e.cards) /\ e.len = SizeDeck(d) - Len(e.cards),
                AfterDraw(d, e.cards))
      [] e.o = "shuffle" -> Only(e.x = "" /\ e.len = SizeDeck(Shuffle(d)), Shuffle(d))
      [] e.o = "trick" -> Only(e.x = "" /\ e.len = SizeDeck(d), Trick(d, e.cards))
      [] e.o = "untrick" -> Only(e.x = "" /\ e.len = SizeDeck(d), Untrick(d))
      [] e.o = "show" -> Only(e.x = "" /\ ShowOK(d, e.cards), AfterShow(d, e.cards))
      \* all orders that came up in a long series of shuffles
      [] e.o = "orders" ->
           LET z == [FreshDeck(e.s, e.r) EXCEPT !.trick = e.trick]
           IN Only(e.x = "" /\ ToSet(e.seen) = Orders(Shuffle(z)), d)
      \* the cards that came up at each place in a long series of shuffles
      [] e.o = "spread" ->
           LET z == Shuffle([FreshDeck(e.s, e.r) EXCEPT !.trick = e.trick])
           IN Only(/\ e.x = "" /\ Len(e.seen) = SizeDeck(z)
                   /\ \A i \in DOMAIN e.seen :
                        ToSet(e.seen[i]) = IF i <= Len(z.top) THEN {z.top[i]} ELSE z.pool, d)
      [] e.o = "card" -> Result(d, Blame(CardOK(e), {"C19"}), FALSE)
      [] e.o = "pair" -> Result(d, Blame(PairOK(e), {"C19"}), FALSE)
      [] e.o = "name" -> Result(d, Blame(NameOK(e), {"C19"}), FALSE)
      [] e.o = "fact" -> Result(d, Blame(e.ok, {e.id}), FALSE)

Report(r) ==
    IF r.bad = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> l,
                                  bad |-> SetToSeq(r.bad \cup ToSet(Traces[t].tags))]))

Consume ==
    /\ ~stop /\ l <= Len(Traces[t].ev)
    /\ LET r == Apply(Traces[t].ev[l])
       IN Report(r) /\ d' = r.d /\ stop' = r.stop
    /\ l' = l + 1 /\ t' = t

Spec == Init /\ [][Consume]_vars
=============================================================================

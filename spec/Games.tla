-------------------------------- MODULE Games --------------------------------
(***************************************************************************)
(* What the names of the shipped configurations say (C21).  words: the     *)
(* words of the name; c: the configuration (Table).                        *)
(***************************************************************************)
EXTENDS Table

Has(words, w) == w \in ToSet(words)
AllOf(q, P(_)) == \A i \in DOMAIN q : P(q[i])

Players(words, c) ==
    c.n = CASE Has(words, "TWO") -> 2 [] Has(words, "THREE") -> 3
            [] Has(words, "SIX") -> 6 [] Has(words, "NINE") -> 9 [] OTHER -> c.n

(* small and big blind in the first two places, nothing else *)
TwoBlinds(c) == /\ c.blinds[1] > 0 /\ c.blinds[2] = 2 * c.blinds[1]
                /\ \A i \in 3..c.n : c.blinds[i] = 0

HoldemBoard(c) == c.ns = 4 /\ c.nc = <<0, 3, 1, 1>> /\ c.k = 5
NoOrder(c) == c.ord = <<>>

Leduc(c) == /\ c.ns = 2 /\ c.suits = 2 /\ c.ranks = 3 /\ c.nh = 1 /\ c.nc = <<0, 1>> /\ c.k = 2
            /\ c.mand = 0 /\ AllOf(c.blinds, LAMBDA x : x = 0)
            /\ AllOf(c.antes, LAMBDA x : x = 1)
            /\ AllOf(c.rs, LAMBDA x : x > 0) /\ AllOf(c.nr, LAMBDA x : x = 2) /\ NoOrder(c)
Kuhn(c) == /\ c.ns = 1 /\ c.suits = 1 /\ c.ranks = 3 /\ c.nh = 1 /\ c.nc = <<0>> /\ c.k = 1
           /\ c.mand = 0 /\ AllOf(c.blinds, LAMBDA x : x = 0)
           /\ AllOf(c.antes, LAMBDA x : x = 1) /\ c.rs = <<1>> /\ c.nr = <<1>> /\ NoOrder(c)
Holdem(c) == /\ HoldemBoard(c) /\ c.suits = 4 /\ c.ranks = 13 /\ c.nh = 2 /\ c.mand = 0
             /\ TwoBlinds(c) /\ c.low /\ NoOrder(c)
Omaha(c) == /\ HoldemBoard(c) /\ c.suits = 4 /\ c.ranks = 13 /\ c.nh = 4 /\ c.mand = 2
            /\ TwoBlinds(c) /\ c.low /\ NoOrder(c)
(* sixes and up; flushes beat full houses *)
ShortDeck(c) == /\ HoldemBoard(c) /\ c.suits = 4 /\ c.ranks = 9 /\ c.nh = 2 /\ c.mand = 0
                /\ TwoBlinds(c) /\ c.low
                /\ LET o == ClassPos(c) IN
                   /\ o[SF] < o[FK] /\ o[FK] < o[FL] /\ o[FL] < o[FH] /\ o[FH] < o[ST]
                   /\ o[ST] < o[TK] /\ o[TK] < o[TP] /\ o[TP] < o[PA] /\ o[PA] < o[HC]

Antes(words, c) ==
    IF Has(words, "ANTE")       \* paid by the big blind only
    THEN \A i \in 1..c.n : (c.antes[i] > 0) = (i = 2)
    ELSE AllOf(c.antes, LAMBDA x : x = 0)

Structure(words, c) ==
    IF Has(words, "NO") \/ Has(words, "SHORT")
    THEN AllOf(c.rs, LAMBDA x : x = Inf) /\ AllOf(c.nr, LAMBDA x : x = Unlimited)
    ELSE IF Has(words, "POT")
    THEN AllOf(c.rs, LAMBDA x : x = Pot) /\ AllOf(c.nr, LAMBDA x : x = Unlimited)
    ELSE \* fixed limit: small bets, then big bets; the big blind is a first bet
         /\ c.rs = <<c.blinds[2], c.blinds[2], 2 * c.blinds[2], 2 * c.blinds[2]>>
         /\ c.nr = <<3, 4, 4, 4>>

GameOK(words, c) ==
    /\ Players(words, c)
    /\ c.start > 0
    /\ IF Has(words, "LEDUC") THEN Leduc(c)
       ELSE IF Has(words, "KUHN") THEN Kuhn(c)
       ELSE /\ Structure(words, c)
            /\ IF Has(words, "HOLDEM") THEN Holdem(c) /\ Antes(words, c)
               ELSE IF Has(words, "OMAHA") THEN Omaha(c) /\ Antes(words, c)
               ELSE IF Has(words, "SHORT") THEN ShortDeck(c) /\ Antes(words, c)
               ELSE TRUE
=============================================================================

------------------------------- MODULE BestMC --------------------------------
(***************************************************************************)
(* The best hand of a player (C16) for every deal of small decks: it is    *)
(* one of the allowed hands and none of them is better, more cards never   *)
(* make it worse, having to use hole cards never makes it better, and the  *)
(* suits can change places.                                                *)
(***************************************************************************)
EXTENDS HandRank

CONSTANTS Suits, Ranks, K, Low, MaxHole, MaxBoard

c(m) == [suits |-> Suits, ranks |-> Ranks, k |-> K, low |-> Low, ord |-> <<>>, mand |-> m]
Pos == ClassPos(c(0))
Cards == DeckSet(c(0))

VARIABLES hole, board
vars == <<hole, board>>
Init == hole = {} /\ board = {}
Take == \E x \in Cards \ (hole \cup board) :
          \/ Cardinality(hole) < MaxHole /\ hole' = hole \cup {x} /\ board' = board
          \/ Cardinality(board) < MaxBoard /\ board' = board \cup {x} /\ hole' = hole
Spec == Init /\ [][Take]_vars

Best(m, h, b) == BestKeyP(c(m), Pos, h, b)
Mands == 0..Min2(K, Cardinality(hole))

OneOfThem ==
    \A m \in Mands :
      LET hs == HandsOf(c(m), hole, board)  x == Best(m, hole, board)
      IN IF hs = {} THEN x = 0
         ELSE /\ \E h \in hs : KeyP(c(0), Pos, h) = x
              /\ \A h \in hs : /\ KeyP(c(0), Pos, h) <= x
                               /\ Cardinality(h) = K /\ h \subseteq hole \cup board
                               /\ m > 0 => Cardinality(h \cap hole) = m
MustIsNoHelp == \A m \in Mands : Best(m, hole, board) <= Best(0, hole, board)
(* all ways of using hole cards together are all ways there are *)
AnyWayIsOneOfThem ==
    LET some == {m \in Mands : m > 0}
        free == Best(0, {}, board)
    IN Best(0, hole, board) = Max({free} \cup {Best(m, hole, board) : m \in some})
MoreIsNoHarm ==
    \A x \in Cards \ (hole \cup board) : \A m \in Mands :
      /\ Best(m, hole \cup {x}, board) >= Best(m, hole, board)
      /\ Best(m, hole, board \cup {x}) >= Best(m, hole, board)
Turn(q) == {RankOf(x) + 13 * ((SuitOf(x) + 1) % Suits) : x \in q}
SuitsDoNotMatter == \A m \in Mands : Best(m, Turn(hole), Turn(board)) = Best(m, hole, board)
=============================================================================

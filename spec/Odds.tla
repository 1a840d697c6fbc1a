-------------------------------- MODULE Odds ---------------------------------
(***************************************************************************)
(* Win probabilities (C20): of all completions of the board from the cards *)
(* not dealt yet, how many each player wins or ties for.                   *)
(* hole, act: per seat; board, deck: sets of cards; left: cards to come.   *)
(***************************************************************************)
EXTENDS HandRank

(* key(i, f): how good the hand of i is if f completes the board           *)
WinsBy(n, act, deck, left, key(_, _)) ==
    LET keys(f) == [i \in 1..n |-> IF act[i] THEN key(i, f) ELSE -1]
        plus(f, acc) == LET k == TLCEval(keys(f))
                            m == MaxSeq(k)
                        IN TLCEval([i \in 1..n |-> IF act[i] /\ k[i] = m THEN acc[i] + 1 ELSE acc[i]])
    IN FoldSet(plus, [i \in 1..n |-> 0], kSubset(left, deck))

(* Every hand is ranked once, if there are not too many. *)
Wins(c, pos, n, hole, act, board, deck, left) ==
    LET pool == board \cup deck \cup UNION {ToSet(hole[i]) : i \in 1..n}
        few == Binom(Cardinality(pool), c.k) < 3000
        ranked == IF few THEN TLCEval([h \in kSubset(c.k, pool) |-> KeyP(c, pos, h)]) ELSE <<>>
        key(i, f) == IF few
                     THEN LET hs == HandsOf(c, ToSet(hole[i]), board \cup f)
                          IN IF hs = {} THEN 0 ELSE Max({ranked[h] : h \in hs})
                     ELSE BestKeyP(c, pos, ToSet(hole[i]), board \cup f)
    IN WinsBy(n, act, deck, left, key)

(* Hands of one card: the boards need not be enumerated, they are counted by *)
(* the highest card which comes (-1: none).                                 *)
OneCardWins(c, n, hole, act, board, deck, left) ==
    LET top(q) == IF q = {} THEN -1 ELSE Max({RankOf(x) : x \in q})
        upto == TLCEval([r \in -1..12 |-> Binom(Cardinality({x \in deck : RankOf(x) <= r}), left)])
        boards(r) == IF left = 0 THEN (IF r = -1 THEN 1 ELSE 0)
                     ELSE IF r = -1 THEN 0 ELSE upto[r] - upto[r - 1]
        key(i, r) == IF c.mand = 1 THEN top(ToSet(hole[i]))
                     ELSE Max({top(ToSet(hole[i])), top(board), r})
        best(r) == Max({key(i, r) : i \in {j \in 1..n : act[j]}})
    IN [i \in 1..n |-> IF act[i] THEN SumOver(-1..12, LAMBDA r : IF key(i, r) = best(r) THEN boards(r) ELSE 0) ELSE 0]

(* 100000 * w / all, rounded down, in numbers which are not too large *)
Share(w, all) == LET x == w * 1000
                 IN (x \div all) * 100 + ((x % all) * 100) \div all
=============================================================================

------------------------------ MODULE HandRank ------------------------------
(***************************************************************************)
(* Hands of 1 to 5 cards of a sub-deck of the standard deck, their classes *)
(* and their order (properties C15, C16, C17).                             *)
(*                                                                         *)
(* A card is the number rank + 13 * suit, rank 0..12 (deuce..ace), suit    *)
(* 0..3 (spades, hearts, diamonds, clubs).  A deck with `ranks` ranks has  *)
(* the highest `ranks` ranks, with `suits` suits the first `suits` suits.  *)
(*                                                                         *)
(* A configuration c is a record with (at least) the fields                *)
(*   suits, ranks, k (cards per hand), low (ace plays low in straights),   *)
(*   ord (<<>> or a permutation of the class ids), mand (mandatory hole    *)
(*   cards).                                                               *)
(***************************************************************************)
EXTENDS Util

RankOf(x) == x % 13
SuitOf(x) == x \div 13
DeckSet(c) == {r + 13 * s : r \in (13 - c.ranks)..12, s \in 0..(c.suits - 1)}

(* class ids, in the documented order of their two-letter codes *)
SF == 1  FK == 2  FH == 3  FL == 4  ST == 5  TK == 6  TP == 7  PA == 8  HC == 9
Codes == <<"sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc">>
Names == <<"straight flush", "four of a kind", "full house", "flush", "straight",
           "three of a kind", "two pair", "pair", "high card">>
(* position of the name in alphabetical order *)
Alpha == <<7, 2, 3, 1, 6, 8, 9, 5, 4>>
ClassOfCode(x) == CHOOSE i \in 1..9 : Codes[i] = x

-----------------------------------------------------------------------------
(* How many hands each class has (C17). *)
NumStraights(c) ==
    IF c.k < 3 \/ c.ranks < c.k THEN 0
    ELSE IF c.ranks = c.k THEN 1      \* the low straight is the only straight
    ELSE c.ranks - c.k + 1 + (IF c.low THEN 1 ELSE 0)

HasFlush(c) == c.k >= 3 /\ c.suits >= 2

ClassCount(c, cls) ==
    LET r == c.ranks  s == c.suits  k == c.k
        nst == NumStraights(c)
        mono == IF HasFlush(c) THEN s ELSE 0     \* suit choices that are a flush
    IN CASE cls = SF -> IF HasFlush(c) THEN nst * s ELSE 0
         [] cls = FL -> IF HasFlush(c) THEN (Binom(r, k) - nst) * s ELSE 0
         [] cls = ST -> nst * (Pow(s, k) - mono)
         [] cls = HC -> (Binom(r, k) - nst) * (Pow(s, k) - mono)
         [] cls = FK -> IF k < 4 THEN 0
                        ELSE r * Binom(s, 4) * Binom(r - 1, k - 4) * Pow(s, k - 4)
         [] cls = FH -> IF k < 5 THEN 0 ELSE r * Binom(s, 3) * (r - 1) * Binom(s, 2)
         [] cls = TK -> IF k < 3 THEN 0
                        ELSE r * Binom(s, 3) * Binom(r - 1, k - 3) * Pow(s, k - 3)
         [] cls = TP -> IF k < 4 THEN 0
                        ELSE Binom(r, 2) * Pow(Binom(s, 2), 2)
                               * Binom(r - 2, k - 4) * Pow(s, k - 4)
         [] cls = PA -> IF k < 2 THEN 0
                        ELSE r * Binom(s, 2) * Binom(r - 1, k - 2) * Pow(s, k - 2)

(* How many different hands a class has: suits do not distinguish hands of *)
(* a class.  Ranks number these (C31).                                     *)
Distinct(c, cls) ==
    LET r == c.ranks  s == c.suits  k == c.k
        nst == NumStraights(c)
    IN CASE cls = SF -> IF HasFlush(c) THEN nst ELSE 0
         [] cls = FL -> IF HasFlush(c) THEN Binom(r, k) - nst ELSE 0
         [] cls = ST -> nst
         [] cls = HC -> Binom(r, k) - nst
         [] cls = FK -> IF k < 4 \/ s < 4 THEN 0 ELSE r * Binom(r - 1, k - 4)
         [] cls = FH -> IF k < 5 \/ s < 3 THEN 0 ELSE r * (r - 1)
         [] cls = TK -> IF k < 3 \/ s < 3 THEN 0 ELSE r * Binom(r - 1, k - 3)
         [] cls = TP -> IF k < 4 \/ s < 2 THEN 0 ELSE Binom(r, 2) * Binom(r - 2, k - 4)
         [] cls = PA -> IF k < 2 \/ s < 2 THEN 0 ELSE r * Binom(r - 1, k - 2)

(* The rank of the best hand of a class: 0 in the best class, else one     *)
(* above the number of different hands in all better classes.              *)
FirstRank(c, pos, cls) ==
    LET better == {x \in 1..9 : pos[x] < pos[cls]}
        n == SumOver(better, LAMBDA x : Distinct(c, x))
    IN IF n = 0 THEN 0 ELSE n + 1

Counts(c) == TLCEval([i \in 1..9 |-> ClassCount(c, i)])
Possible(c) == {i \in 1..9 : ClassCount(c, i) > 0}

(* The classes from best to worst.  Equally frequent classes may be ranked *)
(* either way; this picks the alphabetical order of their names.           *)
DefaultOrder(c) ==
    LET n == Counts(c)
    IN SetToSortSeq(1..9, LAMBDA a, b : \/ n[a] < n[b]
                                        \/ n[a] = n[b] /\ Alpha[a] < Alpha[b])
ClassOrder(c) == IF Len(c.ord) = 0 THEN DefaultOrder(c) ELSE c.ord
(* position of every class, 1 = best *)
ClassPos(c) == LET o == ClassOrder(c)
               IN TLCEval([i \in 1..9 |-> CHOOSE p \in 1..9 : o[p] = i])

-----------------------------------------------------------------------------
(* Class and tie-break of one hand, a set of exactly k cards (C15). *)

(* count * 13 + rank of every rank in the hand, highest first *)
Groups(h) ==
    LET rs == {RankOf(x) : x \in h}
        g(r) == 13 * Cardinality({x \in h : RankOf(x) = r}) + r
    IN SetToSortSeq({g(r) : r \in rs}, LAMBDA a, b : a > b)

(* the rank that names the straight, or -1 (k >= 3, all ranks different) *)
StraightTop(c, g) ==
    LET r(i) == g[i] - 13 IN
    IF r(1) - r(c.k) = c.k - 1 THEN r(1)
    ELSE IF c.low /\ r(1) = 12 /\ r(2) = 13 - c.ranks + c.k - 2
                  /\ r(2) - r(c.k) = c.k - 2
         THEN r(2)
    ELSE -1

(* <<class, tie-break>>; the greater tie-break wins within a class *)
Classify(c, h) ==
    LET g == Groups(h)
        digits == FoldLeft(LAMBDA acc, x : acc * 13 + (x % 13), 0, g)
        m1 == g[1] \div 13
        m2 == IF Len(g) > 1 THEN g[2] \div 13 ELSE 0
        flush == HasFlush(c) /\ Cardinality({SuitOf(x) : x \in h}) = 1
        top == IF c.k >= 3 THEN StraightTop(c, g) ELSE -1
    IN IF m1 = 4 THEN <<FK, digits>>
       ELSE IF m1 = 3 /\ m2 = 2 THEN <<FH, digits>>
       ELSE IF m1 = 3 THEN <<TK, digits>>
       ELSE IF m1 = 2 /\ m2 = 2 THEN <<TP, digits>>
       ELSE IF m1 = 2 THEN <<PA, digits>>
       ELSE IF flush /\ top >= 0 THEN <<SF, top>>
       ELSE IF flush THEN <<FL, digits>>
       ELSE IF top >= 0 THEN <<ST, top>>
       ELSE <<HC, digits>>

(* One number per hand: greater is better, equal means tied.  pos is *)
(* ClassPos(c), passed in so that it is computed once.               *)
KeyP(c, pos, h) == LET t == Classify(c, h) IN (10 - pos[t[1]]) * 371293 + t[2]

-----------------------------------------------------------------------------
(* The best hand a player can make (C16); sets of hole and board cards. *)
Choose(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)
HandsOf(c, hole, board) ==
    IF c.mand = 0 THEN Choose(c.k, hole \cup board)
    ELSE {a \cup b : a \in Choose(c.mand, hole), b \in Choose(c.k - c.mand, board)}

BestKeyP(c, pos, hole, board) ==
    LET hs == HandsOf(c, hole, board)
    IN IF hs = {} THEN 0 ELSE Max({KeyP(c, pos, h) : h \in hs})

BestKey(c, hole, board) == BestKeyP(c, ClassPos(c), hole, board)
=============================================================================

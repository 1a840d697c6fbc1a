------------------------------- MODULE HandMC --------------------------------
(***************************************************************************)
(* The hand rules against brute force, for every deck with few cards: the  *)
(* class counts are the numbers of hands Classify finds, the classes       *)
(* partition all hands, and a hand's class and tie-break depend on its     *)
(* ranks and on whether it is of one suit only.                            *)
(***************************************************************************)
EXTENDS HandRank

CONSTANTS MaxCards     \* decks with at most that many cards

VARIABLE c
Init == c \in {[suits |-> s, ranks |-> r, k |-> k, low |-> l, ord |-> <<>>, mand |-> 0] :
                 s \in 1..4, r \in 1..13, k \in 1..5, l \in BOOLEAN}
        /\ c.suits * c.ranks <= MaxCards /\ c.suits * c.ranks >= c.k
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Hands == kSubset(c.k, DeckSet(c))
ClassesOf == [h \in Hands |-> Classify(c, h)]

CountsAreRight ==
    LET f == ClassesOf
    IN \A i \in 1..9 : ClassCount(c, i) = Cardinality({h \in Hands : f[h][1] = i})
TotalIsRight == SumOver(1..9, LAMBDA i : ClassCount(c, i)) = Binom(c.suits * c.ranks, c.k)
(* suits aside, a class has so many different hands; in the order of their *)
(* keys they fill the ranks from the first one of the class on             *)
DistinctIsRight ==
    LET f == ClassesOf
        pos == ClassPos(c)
        keys == {KeyP(c, pos, h) : h \in Hands}
        ofClass(i) == {f[h] : h \in {g \in Hands : f[g][1] = i}}
    IN /\ \A i \in 1..9 : Distinct(c, i) = Cardinality(ofClass(i))
       /\ SumOver(1..9, LAMBDA i : Distinct(c, i)) = Cardinality(keys)
       /\ \A i \in 1..9 : ofClass(i) # {} =>
             LET b == {x \in 1..9 : pos[x] < pos[i] /\ ofClass(x) # {}}
             IN FirstRank(c, pos, i) = IF b = {} THEN 0
                                       ELSE 1 + Cardinality(UNION {ofClass(x) : x \in b})
(* the same ranks and flush-ness give the same result *)
SuitsDontMatter ==
    LET f == ClassesOf
        kind(h) == <<{<<r, Cardinality({x \in h : RankOf(x) = r})>> : r \in {RankOf(x) : x \in h}},
                     HasFlush(c) /\ Cardinality({SuitOf(x) : x \in h}) = 1>>
        kinds == {kind(h) : h \in Hands}
    IN Cardinality({f[h] : h \in Hands}) = Cardinality({<<kind(h), f[h]>> : h \in Hands})
       /\ Cardinality(kinds) = Cardinality({f[h] : h \in Hands})
(* no two classes share a place, and the order goes by frequency *)
OrderIsByRarity ==
    LET o == DefaultOrder(c) IN
    /\ ToSet(o) = 1..9
    /\ \A i \in 1..8 : ClassCount(c, o[i]) <= ClassCount(c, o[i + 1])
=============================================================================

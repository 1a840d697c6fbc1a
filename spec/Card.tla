-------------------------------- MODULE Card ---------------------------------
(***************************************************************************)
(* Cards as values (C19): names, text, equality and the integer they       *)
(* encode to,                                                              *)
(*   bits 16-28 one bit per rank | 12-15 one bit per suit | 8-11 the rank  *)
(*   | 0-7 the prime of the rank.                                          *)
(***************************************************************************)
EXTENDS HandRank, Bitwise

RankChars == <<"2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A">>
RankLower == <<"2", "3", "4", "5", "6", "7", "8", "9", "t", "j", "q", "k", "a">>
SuitChars == <<"S", "H", "D", "C">>
SuitLower == <<"s", "h", "d", "c">>
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41>>

Encode(x) == Pow(2, 16 + RankOf(x)) + Pow(2, 12 + SuitOf(x)) + 256 * RankOf(x)
             + Primes[RankOf(x) + 1]

RankNamed(ch) == {i \in 0..12 : RankChars[i + 1] = ch \/ RankLower[i + 1] = ch}
SuitNamed(ch) == {i \in 0..3 : SuitChars[i + 1] = ch \/ SuitLower[i + 1] = ch}

(* e.a, e.b the two characters of the name, e.x the error; then the card:  *)
(* e.rank and e.suit as shown (suit 1..4 for the symbols spade, heart,     *)
(* diamond, club), e.text the same read from its text form, e.int          *)
NameOK(e) ==
    LET rs == RankNamed(e.a)  ss == SuitNamed(e.b)
        errs == (IF rs = {} THEN {"InvalidRankError"} ELSE {})
                \cup (IF ss = {} THEN {"InvalidSuitError"} ELSE {})
    IN IF errs # {} THEN e.x \in errs
       ELSE LET x == (CHOOSE r \in rs : TRUE) + 13 * (CHOOSE q \in ss : TRUE)
            IN /\ e.x = ""
               /\ e.rank = RankChars[RankOf(x) + 1] /\ e.suit = SuitOf(x) + 1
               /\ e.text = <<e.rank, e.suit>>
               /\ e.int = Encode(x)

(* e.c the card number, its operators with the integer e.m, and shifts *)
CardOK(e) ==
    LET v == Encode(e.c)
    IN /\ e.x = "" /\ e.int = v
       /\ e.and = v & e.m /\ e.rand = v & e.m
       /\ e.or = v | e.m /\ e.ror = v | e.m
       /\ e.shr = (IF e.n > 28 THEN 0 ELSE v \div Pow(2, e.n))
       \* in three parts, as the integers of TLC have 32 bits: nothing is
       \* shifted in (e.low), the lowest ten bits, and the others
       /\ e.low = 0 /\ e.shl = v % 1024 /\ e.high = v \div 1024

(* two cards: e.c, e.d, created apart *)
PairOK(e) ==
    LET v == Encode(e.c)  w == Encode(e.d)
    IN /\ e.x = "" /\ e.eq = (e.c = e.d) /\ e.ne = (e.c # e.d)
       /\ e.and = v & w /\ e.or = v | w
=============================================================================

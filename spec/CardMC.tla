------------------------------- MODULE CardMC --------------------------------
(***************************************************************************)
(* What cards as integers are good for (C19), for every two cards: they    *)
(* are told apart, their fields do not run into each other, and products   *)
(* of the primes tell the ranks of hands apart.                            *)
(***************************************************************************)
EXTENDS Card

VARIABLES a, b
Init == a \in 0..51 /\ b \in 0..51
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Field(v, low, bits) == (v \div Pow(2, low)) % Pow(2, bits)
FieldsAreRight ==
    LET v == Encode(a)
    IN /\ Field(v, 0, 8) = Primes[RankOf(a) + 1]
       /\ Field(v, 8, 4) = RankOf(a)
       /\ Field(v, 12, 4) = Pow(2, SuitOf(a))
       /\ Field(v, 16, 13) = Pow(2, RankOf(a))
       /\ v < Pow(2, 29)
(* different cards are different numbers; and tells common suits, or the ranks *)
ToldApart ==
    LET v == Encode(a)  w == Encode(b)
    IN /\ (v = w) = (a = b)
       /\ (Field(v & w, 12, 4) # 0) = (SuitOf(a) = SuitOf(b))
       /\ (Field(v & w, 16, 13) # 0) = (RankOf(a) = RankOf(b))
       /\ {r \in 0..12 : (Field(v | w, 16, 13) \div Pow(2, r)) % 2 = 1} = {RankOf(a), RankOf(b)}
(* a name for every card, in either case, and for no other *)
NamesAreCards ==
    /\ RankNamed(RankChars[RankOf(a) + 1]) = {RankOf(a)} /\ RankNamed(RankLower[RankOf(a) + 1]) = {RankOf(a)}
    /\ SuitNamed(SuitChars[SuitOf(a) + 1]) = {SuitOf(a)} /\ SuitNamed(SuitLower[SuitOf(a) + 1]) = {SuitOf(a)}
    /\ \A i \in 1..13 : \A j \in 1..4 : RankChars[i] # SuitChars[j]
ASSUME \A i \in 1..13 : \A d \in 2..(Primes[i] - 1) : Primes[i] % d # 0
ASSUME \A i, j \in 1..13 : i # j => Primes[i] # Primes[j]
=============================================================================

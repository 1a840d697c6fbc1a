------------------------------- MODULE OddsMC --------------------------------
(***************************************************************************)
(* The counting of boards against its laws, for every deal of small decks: *)
(* dealing one more card of the board averages the counts, the seats and   *)
(* the suits do not matter, nobody who is out wins, somebody always does.  *)
(***************************************************************************)
EXTENDS Odds

CONSTANTS Suits, Ranks, K, Mand, NH, Board, N   \* N seats, NH hole cards, Board cards in all

c == [suits |-> Suits, ranks |-> Ranks, k |-> K, low |-> TRUE, ord |-> <<>>, mand |-> Mand]
Pos == ClassPos(c)
Cards == DeckSet(c)

VARIABLES hole, act, board
vars == <<hole, act, board>>

Init == /\ hole \in {h \in [1..N -> kSubset(NH, Cards)] :
                       \A i, j \in 1..N : i # j => h[i] \cap h[j] = {}}
        /\ act \in {a \in [1..N -> BOOLEAN] : \E i \in 1..N : a[i]}
        /\ board = {}
Deck == Cards \ (board \cup UNION {hole[i] : i \in 1..N})
Deal == /\ Cardinality(board) < Board
        /\ \E x \in Deck : board' = board \cup {x}
        /\ UNCHANGED <<hole, act>>
Spec == Init /\ [][Deal]_vars

Left == Board - Cardinality(board)
Count(h, a, b, deck, left) == Wins(c, Pos, N, [i \in 1..N |-> SetToSeq(h[i])], a, b, deck, left)
Now == Count(hole, act, board, Deck, Left)

Averages ==
    Left = 0 \/
    LET next == TLCEval([x \in Deck |-> Count(hole, act, board \cup {x}, Deck \ {x}, Left - 1)])
        now == Now
    IN \A i \in 1..N : SumOver(Deck, LAMBDA x : next[x][i]) = Left * now[i]

SomebodyWins ==
    LET now == Now  fills == Binom(Cardinality(Deck), Left)
    IN /\ SumSeq(now) >= fills
       /\ \A i \in 1..N : now[i] <= fills /\ (~act[i] => now[i] = 0)
       /\ Cardinality({i \in 1..N : act[i]}) = 1 => \E i \in 1..N : now[i] = fills

(* one card each: counted in another way *)
OneCardToo == K = 1 => OneCardWins(c, N, [i \in 1..N |-> SetToSeq(hole[i])], act, board, Deck, Left) = Now

(* the first two seats change places *)
Swap(i) == IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i
SeatsDoNotMatter ==
    LET now == Now
        other == Count([i \in 1..N |-> hole[Swap(i)]], [i \in 1..N |-> act[Swap(i)]], board, Deck, Left)
    IN \A i \in 1..N : other[i] = now[Swap(i)]

(* the next suit for each, round and round *)
Turn(x) == RankOf(x) + 13 * ((SuitOf(x) + 1) % Suits)
TurnAll(q) == {Turn(x) : x \in q}
SuitsDoNotMatter ==
    Count([i \in 1..N |-> TurnAll(hole[i])], act, TurnAll(board), TurnAll(Deck), Left) = Now

(* the shares, rounded down, are short of the whole by less than one each  *)
SharesSumToOne ==
    LET now == Now  all == SumSeq(now)
        sum == SumOver(1..N, LAMBDA i : Share(now[i], all))
    IN sum <= 100000 /\ sum > 100000 - N
=============================================================================

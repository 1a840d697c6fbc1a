------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* One poker table: the complete transition function of Dealer, as pure    *)
(* operators over a configuration c and a table state s.  The state        *)
(* machine in DealerMC explores it, the trace specification DealerTrace    *)
(* compares every recorded call of the implementation with it.             *)
(*                                                                         *)
(* Configuration c: n seats, ns streets, blinds, antes (lists per seat),   *)
(* rs (raise size per street: a number, -1 pot limit, -2 no limit), nr     *)
(* (full raises allowed per street, 1000000 = unlimited), nh hole cards,   *)
(* nc (community cards per street), start (stack) and the fields of        *)
(* HandRank.  Seats and streets are numbered from 1 here, from 0 in the    *)
(* implementation.                                                         *)
(*                                                                         *)
(* State s:                                                                *)
(*   ph     "fresh" | "live" | "over"                                      *)
(*   but    button seat              st    stack of each seat              *)
(*   act    is in the hand           tot   put in during this hand         *)
(*   com    put in on this street    opt   has acted on this street        *)
(*   street                          sr    full raises on this street      *)
(*   lr     last full raise          a     seat to act                     *)
(*   deck   cards still in the deck  hole  hole cards of each seat         *)
(*   board  community cards          pay   payouts at the end              *)
(*   hs     stacks before the hand   last  <<seat, bet, folded>> or <<>>   *)
(*   known  the order of the deck is known (hole, board, deck meaningful)  *)
(***************************************************************************)
EXTENDS HandRank

Pot == -1
Inf == -2
Unlimited == 1000000

Seats(c) == 1..c.n
After(c, i, d) == ((i - 1 + d) % c.n) + 1

(* the first seat clockwise after i that is in the hand (i itself last) *)
NextIn(c, act, i) ==
    LET ds == {d \in 1..c.n : act[After(c, i, d)]}
    IN IF ds = {} THEN i ELSE After(c, i, Min(ds))

FreshTable(c) ==
    [ph |-> "fresh", but |-> 1, st |-> Rep(c.start, c.n), act |-> Rep(FALSE, c.n),
     tot |-> Rep(0, c.n), com |-> Rep(0, c.n), opt |-> Rep(FALSE, c.n),
     street |-> 1, sr |-> 0, lr |-> 0, a |-> 0, deck |-> <<>>,
     hole |-> Rep(<<>>, c.n), board |-> <<>>, pay |-> Rep(0, c.n),
     hs |-> Rep(c.start, c.n), last |-> <<>>, known |-> FALSE]

BigBlind(c) == c.blinds[2]

-----------------------------------------------------------------------------
(* Starting a hand (C03, C09) *)

CanReset(c, s, rs) == rs \/ Cardinality({i \in Seats(c) : s.st[i] > 0}) >= 2

(* Seat which the first entry of the blinds and antes falls on *)
FirstPost(c, act, but) == IF c.n = 2 THEN but ELSE NextIn(c, act, but)

(* A hand in progress is abandoned by a reset: its pot leaves the table. *)
ResetTable(c, s, rb, rs, deck) ==
    LET st0 == IF rs THEN Rep(c.start, c.n) ELSE s.st
        act == [i \in Seats(c) |-> rs \/ st0[i] > 0]
        but == IF rb THEN 1 ELSE After(c, s.but, 1)
        sb == FirstPost(c, act, but)
        entry(i) == ((i - sb + c.n) % c.n) + 1
        ante == [i \in Seats(c) |->
                   IF act[i] THEN Min2(st0[i], c.antes[entry(i)]) ELSE 0]
        blind == [i \in Seats(c) |->
                   IF act[i] THEN Min2(st0[i] - ante[i], c.blinds[entry(i)]) ELSE 0]
        nb == c.nc[1]
        known == Len(deck) > 0
    IN [ph |-> "live", but |-> but, act |-> act,
        st |-> [i \in Seats(c) |-> st0[i] - ante[i] - blind[i]],
        tot |-> [i \in Seats(c) |-> ante[i] + blind[i]],
        com |-> blind, opt |-> Rep(FALSE, c.n), street |-> 1, sr |-> 0,
        lr |-> BigBlind(c), a |-> NextIn(c, act, NextIn(c, act, sb)),
        deck |-> IF known THEN SubSeq(deck, nb + c.n * c.nh + 1, Len(deck)) ELSE <<>>,
        hole |-> IF known THEN [i \in Seats(c) |->
                     SubSeq(deck, nb + (i - 1) * c.nh + 1, nb + i * c.nh)]
                 ELSE Rep(<<>>, c.n),
        board |-> IF known THEN SubSeq(deck, 1, nb) ELSE <<>>,
        pay |-> Rep(0, c.n), hs |-> st0, last |-> <<>>, known |-> known]

-----------------------------------------------------------------------------
(* What the player to act is offered (C05, C07) *)

(* full raises are used up, or only incomplete raises since the last one *)
RaisingBarred(c, s) ==
    LET gap == MaxSeq(s.com) - s.com[s.a]
    IN s.sr >= c.nr[s.street] \/ (s.sr > 0 /\ gap < s.lr)

Offers(c, s) ==
    LET gap == MaxSeq(s.com) - s.com[s.a]
        stack == s.st[s.a]
        size == c.rs[s.street]
        min == IF size >= 0 THEN size + gap ELSE Max2(BigBlind(c), s.lr + gap)
        max == IF size >= 0 THEN min
               ELSE IF size = Pot THEN Max2(min, SumSeq(s.tot) + 2 * gap)
               ELSE stack
        barred == RaisingBarred(c, s)
    IN [call |-> Min2(gap, stack),
        min |-> IF barred THEN 0 ELSE Min2(min, stack),
        max |-> IF barred THEN 0 ELSE Min2(max, stack)]

NoOffers == [call |-> 0, min |-> 0, max |-> 0]

-----------------------------------------------------------------------------
(* What an arbitrary bet means (C06).  Bets need not be whole chips: they   *)
(* are counted in eighths of a chip here, OfChips(x) is a bet of x chips.     *)

Eighths == 8
OfChips(x) == Eighths * x

LegalAmounts(o) == {0, o.call} \cup o.min..o.max

(* the whole number nearest to b, the smaller one of two *)
NearestWhole(b) == LET w == b \div Eighths
                   IN IF b - OfChips(w) > Eighths \div 2 THEN w + 1 ELSE w

(* Nearest legal amount, the smaller one of two.  Written so that it costs *)
(* nothing for large ranges; equivalence with the definition over          *)
(* LegalAmounts is checked in BetMC.                                       *)
Nearest(o, b) ==
    LET inR == IF b < OfChips(o.min) THEN o.min ELSE IF b > OfChips(o.max) THEN o.max
               ELSE NearestWhole(b)
        d == Min({Abs(OfChips(v) - b) : v \in {0, o.call, inR}})
    IN Min({v \in {0, o.call, inR} : Abs(OfChips(v) - b) = d})

Resolve(o, b) ==
    LET amt == Nearest(o, b)
        fold == o.call > 0 /\ (b < 0 \/ amt < o.call)
    IN [amt |-> IF fold THEN 0 ELSE amt, fold |-> fold]

-----------------------------------------------------------------------------
(* The showdown (C10, C11) *)

(* strength of each player's best hand, 0 for players not in the hand *)
Strengths(c, s) ==
    LET pos == ClassPos(c)
        board == ToSet(s.board)
    IN TLCEval([i \in Seats(c) |-> IF s.act[i] THEN BestKeyP(c, pos, ToSet(s.hole[i]), board)
                                   ELSE 0])

(* chip levels of the players still in *)
Levels(act, tot) == {tot[i] : i \in {j \in DOMAIN act : act[j]}} \ {0}

(* Pots by level: each level between two consecutive contributions of      *)
(* players still in holds what everybody put in between them; chips above  *)
(* the highest such contribution belong to the highest level.              *)
Pots(act, tot, key) ==
    LET ls == SetToSortSeq(Levels(act, tot), LAMBDA x, y : x < y)
        n == Len(ls)
        below(i) == IF i = 1 THEN 0 ELSE ls[i - 1]
        part(j, i) == IF i = n THEN Max2(0, tot[j] - below(i))
                      ELSE Max2(0, Min2(tot[j], ls[i]) - below(i))
        contend(i) == {j \in DOMAIN act : act[j] /\ tot[j] >= ls[i]}
        best(i) == Max({key[j] : j \in contend(i)})
    IN TLCEval([i \in 1..n |->
          [size |-> SumOver(DOMAIN act, LAMBDA j : part(j, i)),
           win |-> LET m == best(i) IN {j \in contend(i) : key[j] = m}]])

(* the member of W sitting closest clockwise after the button *)
FirstAfter(c, but, W) == After(c, but, Min({d \in 1..c.n : After(c, but, d) \in W}))

Awards(c, but, act, tot, key) ==
    LET ps == Pots(act, tot, key)
        ws == {ps[i].win : i \in DOMAIN ps}
        \* all chips for which the same players tie are one pot
        size == TLCEval([W \in ws |-> SumOver({i \in DOMAIN ps : ps[i].win = W},
                                              LAMBDA i : ps[i].size)])
        share(j, W) == IF j \notin W THEN 0
                       ELSE size[W] \div Cardinality(W)
                            + (IF j = FirstAfter(c, but, W)
                               THEN size[W] % Cardinality(W) ELSE 0)
    IN TLCEval([j \in DOMAIN act |-> SumOver(ws, LAMBDA W : share(j, W))])

(* two or more players tie for some pot *)
Tied(act, tot, key) ==
    LET ps == Pots(act, tot, key)
    IN \E i \in DOMAIN ps : Cardinality(ps[i].win) > 1

FoldOutPay(c, act, tot) ==
    [i \in Seats(c) |-> IF act[i] THEN SumSeq(tot) - tot[i] ELSE -tot[i]]

ShowdownPay(c, but, act, tot, key) ==
    LET aw == Awards(c, but, act, tot, key) IN [i \in Seats(c) |-> aw[i] - tot[i]]

(* payouts reported while the hand runs (C12) *)
RunningPay(c, s) == [i \in Seats(c) |-> IF s.act[i] THEN 0 ELSE -s.tot[i]]

-----------------------------------------------------------------------------
(* Acting (C04, C08, C12) *)

WithChips(s) == {i \in DOMAIN s.act : s.act[i] /\ s.st[i] > 0}

Settled(s) ==
    \/ WithChips(s) = {}
    \/ \A i \in DOMAIN s.act :
          s.act[i] => s.opt[i] /\ (s.com[i] = MaxSeq(s.com) \/ s.st[i] = 0)

(* betting round over: next street, or all remaining streets if nobody can *)
(* bet against anybody                                                     *)
CloseStreet(c, s) ==
    LET canBet == Cardinality(WithChips(s)) >= 2
        street == IF canBet THEN s.street + 1 ELSE c.ns + 1
        upto == Min2(street, c.ns)
        k == SumOver((s.street + 1)..upto, LAMBDA i : c.nc[i])
    IN [s EXCEPT !.street = street, !.com = Rep(0, c.n), !.sr = 0,
                 !.opt = Rep(FALSE, c.n), !.lr = BigBlind(c),
                 !.a = NextIn(c, s.act, s.but),
                 !.board = IF s.known THEN @ \o SubSeq(s.deck, 1, k) ELSE @,
                 !.deck = IF s.known THEN SubSeq(@, k + 1, Len(@)) ELSE @]

Finish(c, s, pay) ==
    [s EXCEPT !.ph = "over", !.a = 0, !.pay = pay,
              !.st = [i \in Seats(c) |-> s.st[i] + s.tot[i] + pay[i]]]

OnePlayerLeft(s) == CountTrue(s.act) = 1

(* Player s.a puts in amt chips, or folds.  key: hand strengths, or <<>>   *)
(* to derive them from the cards.                                          *)
Act(c, s, o, amt, fold, key) ==
    LET i == s.a
        full == amt > o.call /\ amt - o.call >= s.lr
        s1 == [s EXCEPT !.act[i] = @ /\ ~fold,
                        !.st[i] = @ - amt, !.com[i] = @ + amt, !.tot[i] = @ + amt,
                        !.opt[i] = TRUE,
                        !.lr = IF full THEN amt - o.call ELSE @,
                        !.sr = IF full THEN @ + 1 ELSE @,
                        !.last = <<i, amt, fold>>]
        s2 == IF Settled(s1) THEN CloseStreet(c, s1)
              ELSE [s1 EXCEPT !.a = NextIn(c, s1.act, i)]
        strength == IF Len(key) > 0 THEN key ELSE Strengths(c, s2)
    IN IF OnePlayerLeft(s2) THEN Finish(c, s2, FoldOutPay(c, s2.act, s2.tot))
       ELSE IF s2.street > c.ns
            THEN IF s2.known \/ Len(key) > 0
                 THEN Finish(c, s2, ShowdownPay(c, s2.but, s2.act, s2.tot, strength))
                 ELSE [s2 EXCEPT !.ph = "over", !.a = 0]   \* cards unknown
       ELSE s2

StepTable(c, s, b) ==
    LET o == Offers(c, s)
        r == Resolve(o, b)
    IN Act(c, s, o, r.amt, r.fold, <<>>)

(* done flags (C08) *)
DoneFlags(c, s) == [i \in Seats(c) |-> s.ph = "over" \/ ~s.act[i] \/ s.st[i] = 0]
=============================================================================

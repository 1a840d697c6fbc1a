-------------------------------- MODULE Chips --------------------------------
(***************************************************************************)
(* The chips of one hand: offers, bets, rounds and the end, for any        *)
(* stacks, blinds, antes, limits and bets whatsoever.  Self-contained and  *)
(* typed, for Apalache, which shows that Ind is inductive with unbounded   *)
(* integers (TLC explores the table itself with a few chips only).  That   *)
(* Table does nothing else is shown by TLC: see ChipsMC.                   *)
(*                                                                         *)
(* Written declaratively where Table computes: the next seat is described, *)
(* not searched for; the highest bet and the pot are variables.            *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
    \* @type: Int;
    N,          \* seats, 2..5
    \* @type: Int;
    NS,         \* streets
    \* @type: Int;
    NR,         \* full raises allowed per street
    \* @type: Int;
    RS,         \* raise size, -1: pot limit, -2: no limit
    \* @type: Int -> Int;
    Blind,      \* by position after the button
    \* @type: Int -> Int;
    Ante

VARIABLES
    \* @type: Int;
    but,
    \* @type: Bool;
    live,
    \* @type: Int -> Int;
    hs,         \* stacks before the hand
    \* @type: Int -> Int;
    st,
    \* @type: Int -> Int;
    tot,
    \* @type: Int -> Int;
    com,
    \* @type: Int -> Bool;
    act,
    \* @type: Int -> Bool;
    opt,
    \* @type: Int;
    street,
    \* @type: Int;
    sr,
    \* @type: Int;
    lr,
    \* @type: Int;
    a,
    \* @type: Int;
    top,        \* highest bet of the street
    \* @type: Int;
    pot,
    \* @type: Int -> Int;
    pay,
    \* @type: Int;
    oc,         \* offers to the player to act: call,
    \* @type: Int;
    omin,       \* smallest
    \* @type: Int;
    omax,       \* and largest raise
    \* @type: Int;
    amt,        \* what he is about to do
    \* @type: Bool;
    folds

Seats == 1..N
BB == Blind[2]
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x

(* steps clockwise from i to j *)
Far(i, j) == IF j >= i THEN j - i ELSE j - i + N

(* @type: (Int -> Int) => Int; *)
Sum(f) == f[1] + f[2] + (IF N > 2 THEN f[3] ELSE 0) + (IF N > 3 THEN f[4] ELSE 0)
          + (IF N > 4 THEN f[5] ELSE 0)

(* j is the first after i who is in p; i himself the last *)
(* @type: (Int -> Bool, Int, Int) => Bool; *)
IsNext(p, i, j) ==
    /\ p[j]
    /\ \A k \in Seats : (p[k] /\ k # i /\ k # j) => (j # i /\ Far(i, j) < Far(i, k))
    /\ j = i => \A k \in Seats : p[k] => k = i

-----------------------------------------------------------------------------
(* What is offered *)

Gap == top - com[a]
Barred == sr >= NR \/ (sr > 0 /\ Gap < lr)
MinRaise == IF RS >= 0 THEN RS + Gap ELSE Max2(BB, lr + Gap)
OCall == Min2(Gap, st[a])
OMin == IF Barred THEN 0 ELSE Min2(MinRaise, st[a])
OMax == IF Barred THEN 0
        ELSE IF RS >= 0 THEN Min2(MinRaise, st[a])
        ELSE IF RS = -1 THEN Min2(Max2(MinRaise, pot + 2 * Gap), st[a])
        ELSE st[a]

-----------------------------------------------------------------------------
(* One action *)

(* any legal amount; Bets shows that this is what any bet comes to *)
Allowed == IF folds THEN oc > 0 /\ amt = 0
           ELSE amt >= oc /\ (amt = oc \/ (omin <= amt /\ amt <= omax))
Full == amt > oc /\ amt - oc >= lr

(* after the action *)
ActNow == [act EXCEPT ![a] = @ /\ ~folds]
StNow == [st EXCEPT ![a] = @ - amt]
ComNow == [com EXCEPT ![a] = @ + amt]
TotNow == [tot EXCEPT ![a] = @ + amt]
OptNow == [opt EXCEPT ![a] = TRUE]
TopNow == Max2(top, com[a] + amt)

Settled == \/ \A i \in Seats : ActNow[i] => StNow[i] = 0
           \/ \A i \in Seats : ActNow[i] => OptNow[i] /\ (ComNow[i] = TopNow \/ StNow[i] = 0)
(* two players can still bet against each other *)
CanBet == \E i, j \in Seats : i # j /\ ActNow[i] /\ ActNow[j] /\ StNow[i] > 0 /\ StNow[j] > 0
Alone == \A i, j \in Seats : (ActNow[i] /\ ActNow[j]) => i = j
StreetNow == IF ~Settled THEN street ELSE IF CanBet THEN street + 1 ELSE NS + 1
Ends == Alone \/ StreetNow > NS

Step ==
    /\ live /\ Allowed
    /\ act' = ActNow /\ tot' = TotNow /\ street' = StreetNow
    /\ pot' = pot + amt
    /\ com' = IF Settled THEN [i \in Seats |-> 0] ELSE ComNow
    /\ opt' = IF Settled THEN [i \in Seats |-> FALSE] ELSE OptNow
    /\ top' = IF Settled THEN 0 ELSE TopNow
    /\ sr' = IF Settled THEN 0 ELSE IF Full THEN sr + 1 ELSE sr
    /\ lr' = IF Settled THEN BB ELSE IF Full THEN amt - oc ELSE lr
    /\ live' = ~Ends
    /\ IF Ends
       THEN /\ a' = 0
            /\ pay' \in [Seats -> Int]
            /\ Sum(pay') = 0
            /\ \A i \in Seats : pay'[i] >= -TotNow[i] /\ (~ActNow[i] => pay'[i] = -TotNow[i])
            /\ Alone => \A i \in Seats : ActNow[i] => pay'[i] = pot + amt - TotNow[i]
            /\ st' = [i \in Seats |-> StNow[i] + TotNow[i] + pay'[i]]
       ELSE /\ pay' = pay /\ st' = StNow
            /\ a' \in Seats
            /\ IsNext(ActNow, IF Settled THEN but ELSE a, a')
    /\ UNCHANGED <<but, hs>>

Next == /\ Step
        /\ amt' \in Int /\ folds' \in BOOLEAN
        /\ IF live' THEN oc' = OCall' /\ omin' = OMin' /\ omax' = OMax'
           ELSE oc' = 0 /\ omin' = 0 /\ omax' = 0

(* dealing: fp is the seat of the first blind *)
Entry(fp, i) == Far(fp, i) + 1
Dealt(fp) ==
    /\ fp \in Seats /\ a \in Seats
    /\ act = [i \in Seats |-> hs[i] > 0]
    /\ \E i, j \in Seats : i # j /\ act[i] /\ act[j]
    /\ IF N = 2 THEN fp = but ELSE IsNext(act, but, fp)
    /\ \A i \in Seats :
         LET ante == IF act[i] THEN Min2(hs[i], Ante[Entry(fp, i)]) ELSE 0
             blind == IF act[i] THEN Min2(hs[i] - ante, Blind[Entry(fp, i)]) ELSE 0
         IN com[i] = blind /\ tot[i] = ante + blind /\ st[i] = hs[i] - ante - blind
    /\ \E k \in Seats : IsNext(act, fp, k) /\ IsNext(act, k, a)
    /\ opt = [i \in Seats |-> FALSE]
    /\ live /\ street = 1 /\ sr = 0 /\ lr = BB
    /\ pay = [i \in Seats |-> 0]
    /\ (\A i \in Seats : com[i] <= top) /\ (\E i \in Seats : com[i] = top)
    /\ pot = Sum(tot)
    /\ oc = OCall /\ omin = OMin /\ omax = OMax

Types ==
    /\ but \in Seats /\ live \in BOOLEAN
    /\ hs \in [Seats -> Int] /\ st \in [Seats -> Int] /\ tot \in [Seats -> Int] /\ com \in [Seats -> Int]
    /\ act \in [Seats -> BOOLEAN] /\ opt \in [Seats -> BOOLEAN]
    /\ street \in Int /\ sr \in Int /\ lr \in Int /\ a \in 0..N /\ top \in Int /\ pot \in Int
    /\ pay \in [Seats -> Int]
    /\ oc \in Int /\ omin \in Int /\ omax \in Int /\ amt \in Int /\ folds \in BOOLEAN

Init == Types /\ (\A i \in Seats : hs[i] >= 0) /\ \E fp \in Seats : Dealt(fp)

-----------------------------------------------------------------------------
(* The inductive invariant.  Named parts: *)

(* C01 *)
Conserved == /\ live => Sum(st) + pot = Sum(hs)
             /\ pot = Sum(tot)
             /\ ~live => Sum(st) = Sum(hs) /\ Sum(pay) = 0
                         /\ \A i \in Seats : st[i] = hs[i] + pay[i]
(* C02 *)
NoDebt == /\ \A i \in Seats : hs[i] >= 0 /\ st[i] >= 0 /\ com[i] >= 0 /\ com[i] <= tot[i] /\ tot[i] <= hs[i]
          /\ live => \A i \in Seats : st[i] = hs[i] - tot[i]
(* who is to act, and that there is something to do (C04, C08) *)
SomethingToDo ==
    live => /\ a \in Seats /\ act[a]
            /\ \E i, j \in Seats : i # j /\ act[i] /\ act[j]
            /\ 1 <= street /\ street <= NS
            /\ \E i \in Seats : act[i] /\ (~opt[i] \/ (com[i] < top /\ st[i] > 0))
            /\ \A i \in Seats : act[i] => hs[i] > 0
TopIsTop == (\A i \in Seats : com[i] <= top) /\ (\E i \in Seats : com[i] = top)
RaisesCount == sr >= 0 /\ sr <= Max2(NR, 0) /\ lr >= BB /\ (sr > 0 => lr >= 0)

OffersAre == live => oc = OCall /\ omin = OMin /\ omax = OMax

Ind == Types /\ Conserved /\ NoDebt /\ SomethingToDo /\ TopIsTop /\ RaisesCount /\ OffersAre

(* what follows from it *)

(* C05 *)
OffersSound ==
    live => /\ 0 <= oc /\ oc <= st[a] /\ oc <= Gap
            /\ 0 <= omin /\ omin <= omax /\ omax <= st[a]
            /\ (omax > 0 => omin >= oc)
            /\ (omax > 0 /\ RS = -2) => omax = st[a]
            /\ (omax > 0 /\ omin < st[a] /\ RS < 0) => omin - oc >= lr
(* C07 *)
RaiseCap == live => (sr >= NR => omax = 0) /\ ((sr > 0 /\ Gap < lr) => omax = 0)
(* the table is never stuck: there is a next player *)
NextThere == live => \A i \in Seats : \E j \in Seats : IsNext(act, i, j)

Follows == OffersSound /\ RaiseCap /\ NextThere

(* Every action brings the hand nearer to its end (C27): the street goes   *)
(* on, or a player less is in, or there are fewer chips to bet, or fewer   *)
(* players who have not acted, or it is nearer to one it waits for; each   *)
(* is bounded below.                                                       *)
(* @type: (Int -> Bool) => Int; *)
Count(f) == (IF f[1] THEN 1 ELSE 0) + (IF f[2] THEN 1 ELSE 0) + (IF N > 2 /\ f[3] THEN 1 ELSE 0)
            + (IF N > 3 /\ f[4] THEN 1 ELSE 0) + (IF N > 4 /\ f[5] THEN 1 ELSE 0)
(* somebody the others wait for; there is one (SomethingToDo) *)
Waited(i) == act[i] /\ (~opt[i] \/ (com[i] < top /\ st[i] > 0))
Nearer ==
    live => \/ ~live'
            \/ street' > street /\ street' <= NS
            \/ /\ street' = street
               /\ \/ Count(act') < Count(act)
                  \/ /\ act' = act
                     /\ \/ Sum(st') < Sum(st)
                        \/ st' = st /\ Count(opt') > Count(opt)
                        \/ /\ st' = st /\ opt' = opt /\ com' = com /\ top' = top
                           /\ \A i \in Seats : Waited(i) => Far(a', i) < Far(a, i)

(* constants *)
Const(n) ==
    /\ N = n /\ NS \in Int /\ NS >= 1 /\ NR \in Int /\ NR >= 0 /\ RS \in Int /\ RS >= -2
    /\ Blind \in [1..n -> Int] /\ Ante \in [1..n -> Int]
    /\ \A i \in 1..n : Blind[i] >= 0 /\ Ante[i] >= 0
Const2 == Const(2)
Const3 == Const(3)
Const4 == Const(4)
Const5 == Const(5)
=============================================================================

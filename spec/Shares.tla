------------------------------- MODULE Shares --------------------------------
(***************************************************************************)
(* What the players get at a showdown (C10, C11), for any contributions    *)
(* and strengths whatsoever: self-contained and typed, for Apalache.       *)
(* Seats are counted clockwise from the button on.  SharesMC shows with    *)
(* TLC that Table awards exactly this.                                     *)
(*                                                                         *)
(* Declarative: everything is a variable, described by Def.                *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
    \* @type: Int;
    N           \* players, 2..4

VARIABLES
    \* @type: Int -> Bool;
    act,        \* still in
    \* @type: Int -> Int;
    tot,        \* put in
    \* @type: Int -> Int;
    key,        \* strength
    \* @type: Int -> Int;
    low,        \* the next lower contribution of a player still in
    \* @type: Int -> Bool;
    lead,       \* the pot of the level between low[k] and tot[k] is counted at k
    \* @type: Int -> Int;
    size,       \* chips in it
    \* @type: <<Int, Int>> -> Bool;
    win,        \* who wins it
    \* @type: Int -> Bool;
    rep,        \* pots with the same winners are one pot, counted here
    \* @type: Int -> Int;
    all,        \* chips in it
    \* @type: Int -> Int;
    each,       \* share of each
    \* @type: Int -> Int;
    odd,        \* chips left over
    \* @type: Int -> Int;
    award

Seats == 1..N
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
(* @type: (Int -> Int) => Int; *)
Sum(f) == f[1] + f[2] + (IF N > 2 THEN f[3] ELSE 0) + (IF N > 3 THEN f[4] ELSE 0)
(* @type: (Int -> Bool) => Int; *)
Count(f) == (IF f[1] THEN 1 ELSE 0) + (IF f[2] THEN 1 ELSE 0) + (IF N > 2 /\ f[3] THEN 1 ELSE 0)
            + (IF N > 3 /\ f[4] THEN 1 ELSE 0)

Top(k) == \A j \in Seats : act[j] => tot[j] <= tot[k]

Def ==
    /\ \E i \in Seats : act[i] /\ tot[i] > 0
    /\ \A i \in Seats : tot[i] >= 0
    \* levels
    /\ \A k \in Seats :
         /\ 0 <= low[k] /\ (tot[k] > 0 => low[k] < tot[k])
         /\ low[k] = 0 \/ \E j \in Seats : act[j] /\ low[k] = tot[j]
         /\ \A j \in Seats : (act[j] /\ tot[j] < tot[k]) => tot[j] <= low[k]
         /\ lead[k] <=> (act[k] /\ tot[k] > 0 /\ \A j \in Seats : (act[j] /\ tot[j] = tot[k]) => k <= j)
         /\ size[k] = IF lead[k]
                      THEN Sum([j \in Seats |-> Max2(0, (IF Top(k) THEN tot[j] ELSE Min2(tot[j], tot[k])) - low[k])])
                      ELSE 0
    \* winners
    /\ \A k, j \in Seats :
         win[<<k, j>>] <=> (/\ act[j] /\ tot[j] >= tot[k]
                            /\ \A i \in Seats : (act[i] /\ tot[i] >= tot[k]) => key[i] <= key[j])
    /\ \A k \in Seats :
         /\ rep[k] <=> (lead[k] /\ \A i \in Seats : (i < k /\ lead[i]) => \E j \in Seats : win[<<i, j>>] # win[<<k, j>>])
         /\ all[k] = IF rep[k]
                     THEN Sum([i \in Seats |-> IF \A j \in Seats : win[<<i, j>>] = win[<<k, j>>] THEN size[i] ELSE 0])
                     ELSE 0
         /\ LET n == Count([j \in Seats |-> win[<<k, j>>]])
            IN \E m \in 1..N : (rep[k] => n = m) /\ (~rep[k] => m = 1)
                               /\ all[k] = m * each[k] + odd[k] /\ 0 <= odd[k] /\ odd[k] < m
    /\ \A j \in Seats :
         award[j] = Sum([k \in Seats |-> IF rep[k] /\ win[<<k, j>>]
                                         THEN each[k] + (IF \A i \in Seats : win[<<k, i>>] => j <= i THEN odd[k] ELSE 0)
                                         ELSE 0])

Init ==
    /\ act \in [Seats -> BOOLEAN] /\ tot \in [Seats -> Int] /\ key \in [Seats -> Int]
    /\ low \in [Seats -> Int] /\ lead \in [Seats -> BOOLEAN] /\ size \in [Seats -> Int]
    /\ win \in [Seats \X Seats -> BOOLEAN] /\ rep \in [Seats -> BOOLEAN]
    /\ all \in [Seats -> Int] /\ each \in [Seats -> Int] /\ odd \in [Seats -> Int]
    /\ award \in [Seats -> Int]
    /\ Def
Next == UNCHANGED <<act, tot, key, low, lead, size, win, rep, all, each, odd, award>>

AllPaid == Sum(award) = Sum(tot)
OnlyIn == \A i \in Seats : award[i] >= 0 /\ (~act[i] => award[i] = 0)
Matched == \A i \in Seats : act[i] =>
             award[i] <= Sum([j \in Seats |-> IF Top(i) THEN tot[j] ELSE Min2(tot[i], tot[j])])
BeatenLoses == \A i, j \in Seats : (act[i] /\ act[j] /\ key[j] > key[i] /\ tot[j] >= tot[i]) => award[i] = 0
BestTakesAll == \A i \in Seats :
    (act[i] /\ Top(i) /\ \A j \in Seats : (j # i /\ act[j]) => key[j] < key[i]) => award[i] = Sum(tot)
(* nobody can win back what nobody could match *)
Uncalled == \A i \in Seats : act[i] =>
    \A m \in Seats : (m # i /\ \A j \in Seats : j # i => tot[j] <= tot[m]) => award[i] >= tot[i] - tot[m]
EqualShares == \A i, j \in Seats : (act[i] /\ act[j] /\ i < j /\ key[i] = key[j] /\ tot[i] = tot[j]) =>
    /\ award[i] >= award[j]
    /\ award[i] - award[j] <= (N - 1) * (N - 1)
(* the better hand with the larger contribution gets at least as much, up to odd chips *)
Ordered == \A i, j \in Seats : (act[i] /\ act[j] /\ key[i] >= key[j] /\ tot[i] >= tot[j]) =>
    award[i] >= award[j] - (N - 1) * (N - 1)
Right == AllPaid /\ OnlyIn /\ Matched /\ BeatenLoses /\ BestTakesAll /\ Uncalled /\ EqualShares /\ Ordered

Const2 == N = 2
Const3 == N = 3
Const4 == N = 4
=============================================================================

------------------------------- MODULE PotsMC --------------------------------
(***************************************************************************)
(* The distribution of the pots over all small hands (C10, C11): each      *)
(* state is one combination of players in the hand, contributions and hand *)
(* strengths.  Awards is compared with a second definition, chip by chip,  *)
(* and with the consequences the properties name.                          *)
(***************************************************************************)
EXTENDS Table

CONSTANTS N, MaxTot, Keys

VARIABLES act, tot, key, but
vars == <<act, tot, key, but>>

Init == /\ act \in [1..N -> BOOLEAN] /\ \E i \in 1..N : act[i]
        /\ tot \in [1..N -> 0..MaxTot]
        /\ key \in [1..N -> 1..Keys] /\ \A i \in 1..N : act[i] \/ key[i] = 1
        \* somebody in the hand has put in chips
        /\ \E i \in 1..N : act[i] /\ tot[i] > 0
        /\ but = 1
Next == but < N /\ but' = but + 1 /\ UNCHANGED <<act, tot, key>>
Spec == Init /\ [][Next]_vars

c == [n |-> N]
In == {i \in 1..N : act[i]}
Top == Max({tot[i] : i \in In})
Aw == Awards(c, but, act, tot, key)

(* the t-th chip of everybody who put in at least t goes to the best hands *)
(* among those in who put in at least t, or if there are none, to those    *)
(* who get the chips of the highest level                                  *)
Level(t) == Min2(t, Top)
WinnersOfChip(t) ==
    LET cand == {i \in In : tot[i] >= Level(t)}
    IN {i \in cand : \A j \in cand : key[j] <= key[i]}
Reaching(t) == Cardinality({i \in 1..N : tot[i] >= t})
ByChip ==
    LET ts == 1..MaxTot
        ws == {WinnersOfChip(t) : t \in ts}
        pot(W) == SumOver({t \in ts : WinnersOfChip(t) = W}, Reaching)
        odd(W) == CHOOSE i \in W : \A j \in W \ {i} :
                     (i - but - 1 + N) % N < (j - but - 1 + N) % N
    IN [i \in 1..N |-> SumOver({W \in ws : i \in W}, LAMBDA W :
          pot(W) \div Cardinality(W) + IF i = odd(W) THEN pot(W) % Cardinality(W) ELSE 0)]

SameAsByChip == Aw = ByChip
AllPaid == SumSeq(Aw) = SumSeq(tot) /\ \A i \in 1..N : Aw[i] >= 0
OnlyIn == \A i \in 1..N : ~act[i] => Aw[i] = 0
(* nobody gets more than he matched of each contribution, except chips     *)
(* which nobody still in has matched                                       *)
Matched == \A i \in In : Aw[i] <= SumOver(1..N, LAMBDA j : Min2(tot[i], tot[j]))
                                  + (IF tot[i] = Top THEN SumOver(1..N, LAMBDA j : Max2(0, tot[j] - Top)) ELSE 0)
BeatenLoses == \A i, j \in In : (key[j] > key[i] /\ tot[j] >= tot[i]) => Aw[i] = 0
BestTakesAll == \A i \in In : (tot[i] = Top /\ \A j \in In \ {i} : key[j] < key[i])
                                => Aw[i] = SumSeq(tot)
(* a better hand never loses to a worse one what it put in *)
BestKeepsHis == \A i \in In : (\A j \in In : key[j] <= key[i]) =>
                   Aw[i] >= tot[i] - 0 \/ \E j \in In \ {i} : key[j] = key[i]
EqualShares == \A i, j \in In : (i # j /\ key[i] = key[j] /\ tot[i] = tot[j]) =>
                  /\ Abs(Aw[i] - Aw[j]) <= (N - 1) * (N - 1)
                  /\ (i - but - 1 + N) % N < (j - but - 1 + N) % N => Aw[i] >= Aw[j]
=============================================================================

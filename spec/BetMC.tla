-------------------------------- MODULE BetMC --------------------------------
(* Every bet against every offer (C06): Nearest is the definition over the *)
(* set of legal amounts, and Resolve reads it as the rules say.            *)
EXTENDS Table

CONSTANTS Stack

VARIABLES o, b
vars == <<o, b>>

Offers0 == {x \in [call : 0..Stack, min : 0..Stack, max : 0..Stack] :
              x.min <= x.max /\ (x.max > 0 => x.min >= x.call)}
Init == o \in Offers0 /\ b = OfChips(-2)
Next == b < OfChips(Stack + 3) /\ b' = b + 1 /\ o' = o
Spec == Init /\ [][Next]_vars

Legal == LegalAmounts(o)
Amt == Nearest(o, b)
R == Resolve(o, b)

NearestIsLegal == Amt \in Legal
NearestIsNearest == \A x \in Legal : \/ Abs(OfChips(x) - b) > Abs(OfChips(Amt) - b)
                                     \/ Abs(OfChips(x) - b) = Abs(OfChips(Amt) - b) /\ x >= Amt
LegalStays == \A x \in Legal : b = OfChips(x) => Amt = x
FoldsOnly == R.fold <=> o.call > 0 /\ (b < 0 \/ Amt = 0)
NoFreeFold == o.call = 0 => ~R.fold
FoldIsFree == R.fold => R.amt = 0
CallOrMore == ~R.fold => R.amt >= o.call
TooMuchIsMax == b > OfChips(Stack) => R.amt = Max(Legal)
(* what Apalache shows of Bets for any number of chips is true of Resolve  *)
B == INSTANCE Bets WITH oc <- o.call, omin <- o.min, omax <- o.max, stack <- Stack, bet <- b, probe <- 0
SameAsBets == /\ B!Offered
              /\ B!Nearest = Amt /\ B!Folds = R.fold /\ B!Amount = R.amt
=============================================================================

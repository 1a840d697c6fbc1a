------------------------------ MODULE SharesMC -------------------------------
(* Table awards exactly what Shares describes, so that what Apalache shows *)
(* of it for any number of chips is true of Table.                         *)
EXTENDS PotsMC

(* seats from the button on are the seats when the button is the last one  *)
LowOf == [k \in 1..N |-> Max({0} \cup {tot[j] : j \in {i \in In : tot[i] < tot[k]}})]
LeadOf == [k \in 1..N |-> act[k] /\ tot[k] > 0 /\ \A j \in In : tot[j] = tot[k] => k <= j]
SizeOf == [k \in 1..N |-> IF LeadOf[k]
             THEN SumOver(1..N, LAMBDA j : Max2(0, (IF tot[k] = Top THEN tot[j] ELSE Min2(tot[j], tot[k])) - LowOf[k]))
             ELSE 0]
WinOf == TLCEval([p \in (1..N) \X (1..N) |-> act[p[2]] /\ tot[p[2]] >= tot[p[1]]
            /\ \A i \in In : tot[i] >= tot[p[1]] => key[i] <= key[p[2]]])
Row(k) == {j \in 1..N : WinOf[<<k, j>>]}
RepOf == [k \in 1..N |-> LeadOf[k] /\ \A i \in 1..k - 1 : LeadOf[i] => Row(i) # Row(k)]
AllOf == [k \in 1..N |-> IF RepOf[k] THEN SumOver({i \in 1..N : Row(i) = Row(k)}, LAMBDA i : SizeOf[i]) ELSE 0]
EachOf == [k \in 1..N |-> IF RepOf[k] THEN AllOf[k] \div Cardinality(Row(k)) ELSE 0]
OddOf == [k \in 1..N |-> IF RepOf[k] THEN AllOf[k] % Cardinality(Row(k)) ELSE 0]

Sh == INSTANCE Shares WITH low <- LowOf, lead <- LeadOf, size <- SizeOf, win <- WinOf, rep <- RepOf,
                           all <- AllOf, each <- EachOf, odd <- OddOf, award <- Aw
AwardedLikeShares == but = N => Sh!Def
=============================================================================

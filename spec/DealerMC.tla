------------------------------ MODULE DealerMC ------------------------------
(***************************************************************************)
(* The table as a state machine, for exhaustive exploration with TLC.      *)
(* Named actions: Deal, Abandon, Fold, Check, Call, Raise(x), AfterEnd,    *)
(* RefusedDeal.  Cards are abstracted to the strength of each player's     *)
(* hand, chosen when the hand is dealt.                                    *)
(*                                                                         *)
(* History variables: chips (on the table before the hand), rz (full       *)
(* raises of the street, by size), acted (seats that acted on the street), *)
(* prev (state before the last action), act (name of the last action),     *)
(* ends (see Ends.tla).                                                    *)
(***************************************************************************)
EXTENDS Table, Ends

CONSTANTS N, NS, MaxStack, Blinds, Antes, RaiseSize, NumRaises,
          Strengths0, Hands, WithAbandon

(* values for the constants in .cfg files, which cannot contain sequences *)
Two12 == <<1, 2>>          Two00 == <<0, 0>>        Two11 == <<1, 1>>
Two01 == <<0, 1>>          Two10 == <<1, 0>>
Three120 == <<1, 2, 0>>    Three000 == <<0, 0, 0>>  Three111 == <<1, 1, 1>>
Three010 == <<0, 1, 0>>    Three110 == <<1, 1, 0>>  Three123 == <<1, 2, 3>>
Four1200 == <<1, 2, 0, 0>> Four0000 == <<0, 0, 0, 0>> Four1100 == <<1, 1, 0, 0>>
Four0100 == <<0, 1, 0, 0>> Four0010 == <<0, 0, 1, 0>> Four1111 == <<1, 1, 1, 1>>

C == [n |-> N, ns |-> NS, blinds |-> Blinds, antes |-> Antes,
      rs |-> Rep(RaiseSize, NS), nr |-> Rep(NumRaises, NS), nh |-> 1,
      nc |-> Rep(0, NS), start |-> MaxStack, suits |-> 4, ranks |-> 13, k |-> 1,
      mand |-> 1, low |-> FALSE, ord |-> <<>>]

VARIABLES s, key, hands, chips, rz, acted, prev, act, ends
vars == <<s, key, hands, chips, rz, acted, prev, act, ends>>

Init == /\ \E st \in [1..N -> 0..MaxStack], b \in 1..N :
             s = [FreshTable(C) EXCEPT !.st = st, !.but = b, !.hs = st]
        /\ key = Rep(0, N) /\ hands = 0 /\ chips = 0 /\ rz = <<>> /\ acted = {}
        /\ prev = <<>> /\ act = "Init" /\ ends = NoActs

(* observers of the state *)
Gap == MaxSeq(s.com) - s.com[s.a]
O == Offers(C, s)

DealWith(rb, rs, name) ==
    /\ hands < Hands
    /\ CanReset(C, s, rs)
    /\ s' = ResetTable(C, s, rb, rs, <<>>)
    /\ \E k \in [1..N -> 1..Strengths0] :
         /\ \A i \in 1..N : s'.act[i] \/ k[i] = 1
         /\ key' = k
    /\ hands' = hands + 1
    /\ chips' = SumSeq(s'.hs)
    /\ rz' = <<>> /\ acted' = {} /\ prev' = <<>> /\ act' = name /\ ends' = NoActs

Deal == s.ph # "live" /\ \E rb \in BOOLEAN : DealWith(rb, FALSE, "Deal")
DealFull == s.ph = "over" /\ DealWith(FALSE, TRUE, "DealFull")
(* a reset in the middle of a hand: its pot leaves the table *)
Abandon == WithAbandon /\ s.ph = "live" /\ DealWith(FALSE, FALSE, "Abandon")
RefusedDeal == /\ s.ph # "live" /\ ~CanReset(C, s, FALSE)
               /\ act' = "RefusedDeal" /\ UNCHANGED <<s, key, hands, chips, rz, acted, prev, ends>>

Turn(amt, fold, name) ==
    LET full == amt > O.call
                /\ amt - O.call >= Max2(BigBlind(C), IF rz = <<>> THEN 0 ELSE Max(ToSet(rz)))
        newStreet == s'.street # s.street
    IN /\ s.ph = "live"
       /\ s' = Act(C, s, O, amt, fold, key)
       /\ rz' = IF newStreet THEN <<>> ELSE IF full THEN Append(rz, amt - O.call) ELSE rz
       /\ acted' = IF newStreet THEN {} ELSE acted \cup {s.a}
       /\ prev' = s /\ act' = name
       /\ ends' = Acts(ends, s.a, amt > Gap)
       /\ UNCHANGED <<key, hands, chips>>

Fold == s.ph = "live" /\ O.call > 0 /\ Turn(0, TRUE, "Fold")
Check == s.ph = "live" /\ O.call = 0 /\ Turn(0, FALSE, "Check")
Call == s.ph = "live" /\ O.call > 0 /\ Turn(O.call, FALSE, "Call")
Raise == s.ph = "live" /\ \E x \in O.min..O.max : x > O.call /\ Turn(x, FALSE, "Raise")
(* acting on a finished hand *)
AfterEnd == s.ph = "over" /\ act' = "AfterEnd"
            /\ UNCHANGED <<s, key, hands, chips, rz, acted, prev, ends>>

Play == Fold \/ Check \/ Call \/ Raise
Next == Deal \/ DealFull \/ Abandon \/ RefusedDeal \/ Play \/ AfterEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Play)

-----------------------------------------------------------------------------
Live == s.ph = "live"
Over == s.ph = "over"
Played == act \in {"Fold", "Check", "Call", "Raise"}
Dealt == act \in {"Deal", "DealFull", "Abandon"}
In(i) == s.act[i]

(* C01 *)
Conserved ==
    /\ Live => SumSeq(s.st) + SumSeq(s.tot) = chips
    /\ Over => /\ SumSeq(s.st) = chips
               /\ SumSeq(s.pay) = 0
               /\ \A i \in 1..N : s.st[i] = s.hs[i] + s.pay[i] /\ s.pay[i] >= -s.tot[i]
(* C02 *)
NoDebt ==
    /\ \A i \in 1..N : s.st[i] >= 0 /\ s.tot[i] >= 0 /\ s.com[i] >= 0 /\ s.com[i] <= s.tot[i]
    /\ Live => \A i \in 1..N : s.st[i] + s.tot[i] = s.hs[i]
(* C03, stated independently of FirstPost/NextIn *)
ForcedBets ==
    Dealt =>
      LET between(i, j) == {After(C, i, d) : d \in 1..(((j - i - 1 + N) % N))}
          inHand == {i \in 1..N : s.act[i]}
          first == IF N = 2 THEN s.but
                   ELSE CHOOSE i \in inHand : between(s.but, i) \cap inHand = {}
                                              /\ (i # s.but \/ inHand = {i})
          owes(i) == LET e == ((i - first + N) % N) + 1 IN Antes[e] + Blinds[e]
      IN /\ inHand = {i \in 1..N : s.hs[i] > 0}
         /\ \A i \in 1..N : s.tot[i] = IF i \in inHand THEN Min2(owes(i), s.hs[i]) ELSE 0
         /\ s.a \in inHand
         \* exactly one player between the first poster and the first actor,
         \* with two players the first poster acts
         /\ IF Cardinality(inHand) = 2 THEN s.a = first
            ELSE Cardinality(between(first, s.a) \cap inHand) = 1 /\ s.a # first
(* C04 *)
TurnOrder ==
    /\ Live => In(s.a)
    /\ (Played /\ Live) =>
         LET from == IF s.street = prev.street THEN prev.a ELSE s.but
         IN \A d \in 1..(((s.a - from - 1 + N) % N)) : ~s.act[After(C, from, d)]
(* C05 *)
OffersSound ==
    Live => /\ 0 <= O.call /\ O.call <= s.st[s.a]
            /\ 0 <= O.min /\ O.min <= O.max /\ O.max <= s.st[s.a]
            /\ O.call = Min2(Gap, s.st[s.a])
            /\ O.max > 0 => O.min >= O.call
            /\ (O.max > 0 /\ RaiseSize = Inf) => O.max = s.st[s.a]
            /\ (O.max > 0 /\ O.min < s.st[s.a] /\ RaiseSize < 0)
                 => O.min - O.call >= Max2(BigBlind(C), IF rz = <<>> THEN 0 ELSE rz[Len(rz)])
(* C06: folding costs nothing, calling matches or is all-in *)
BetsSound ==
    /\ act = "Fold" => s.tot[prev.a] = prev.tot[prev.a] /\ ~s.act[prev.a]
    /\ act = "Call" => \/ s.tot[prev.a] - prev.tot[prev.a]
                            = MaxSeq(prev.com) - prev.com[prev.a]
                       \/ s.tot[prev.a] = s.hs[prev.a]
(* C07 *)
RaiseCap ==
    /\ Live => s.sr = Len(rz) /\ Len(rz) <= NumRaises
    /\ (Live /\ Len(rz) >= NumRaises) => O.max = 0
    /\ (Live /\ rz # <<>> /\ Gap < rz[Len(rz)]) => O.max = 0
    /\ (Live /\ s.st[s.a] > 0 /\ RaiseSize # 0 /\ Len(rz) < NumRaises
          /\ (rz = <<>> \/ Gap >= rz[Len(rz)])) => O.max > 0
    /\ \A i \in 2..Len(rz) : rz[i] >= rz[i - 1]
(* C08 *)
StreetsEnd ==
    /\ Live => CountTrue(s.act) >= 2 /\ s.street <= NS
    \* somebody still has to act or to match, and somebody can
    /\ Live => /\ \E i \in 1..N : In(i) /\ (i \notin acted
                                            \/ (s.st[i] > 0 /\ s.com[i] < MaxSeq(s.com)))
               /\ WithChips(s) # {} \/ acted = {}
    \* a street closes only if everybody acted and matched, or is all-in
    /\ (Played /\ s.street > prev.street /\ CountTrue(s.act) > 1) =>
         \/ \A i \in 1..N : In(i) => s.tot[i] = s.hs[i]
         \/ \A i \in 1..N : In(i) =>
              /\ prev.opt[i] \/ i = prev.a
              /\ \/ s.tot[i] = s.hs[i]
                 \/ prev.com[i] + s.tot[i] - prev.tot[i]
                      = Max({prev.com[j] + s.tot[j] - prev.tot[j] : j \in 1..N})
    /\ (Live /\ Played /\ s.street > prev.street) => s.street = prev.street + 1
    /\ (Live /\ s.street > 1) => Cardinality(WithChips(s)) >= 2 \/ acted # {}
    /\ (Over /\ CountTrue(s.act) > 1) => s.street = NS + 1
(* C27 *)
Bounded == Ending(ends, NS)
HandsEnd == Live ~> Over
(* C10: against every opponent a player wins at most what he matched, and  *)
(* at most his share of chips nobody still in has matched                  *)
FairShowdown ==
    (Over /\ CountTrue(s.act) > 1) =>
      LET ins == {i \in 1..N : In(i)}
          top == Max({s.tot[i] : i \in ins})
          dead == SumOver(1..N, LAMBDA j : Max2(0, s.tot[j] - top))
          back(i) == s.pay[i] + s.tot[i]
      IN /\ \A i \in 1..N : ~In(i) => s.pay[i] = -s.tot[i]
         /\ \A i \in ins : back(i) <= SumOver(1..N, LAMBDA j : Min2(s.tot[i], s.tot[j]))
                                      + (IF s.tot[i] = top THEN dead ELSE 0)
         \* somebody strictly beaten at every level he paid into wins nothing
         /\ \A i \in ins : (\E j \in ins : s.tot[j] >= s.tot[i] /\ key[j] > key[i])
                             => back(i) = 0
         \* the best hand that paid most takes everything
         /\ \A i \in ins : (s.tot[i] = top /\ \A j \in ins \ {i} : key[j] < key[i])
                             => back(i) = SumSeq(s.tot)
         \* uncalled chips come back
         /\ \A i \in ins : (\A j \in 1..N \ {i} : s.tot[j] < s.tot[i])
               => back(i) >= s.tot[i] - Max({s.tot[j] : j \in 1..N \ {i}} \cup {0})
(* C11: equal hands with equal contributions differ by odd chips only, in  *)
(* favour of the one closer to the button                                  *)
EvenSplit ==
    (Over /\ CountTrue(s.act) > 1) =>
      \A i, j \in 1..N :
        (In(i) /\ In(j) /\ i # j /\ key[i] = key[j] /\ s.tot[i] = s.tot[j]) =>
          LET near(x) == (x - s.but - 1 + N) % N
          IN /\ near(i) < near(j) => s.pay[i] >= s.pay[j]
             /\ Abs(s.pay[i] - s.pay[j]) <= (N - 1) * (N - 1)
(* C12 *)
LastOneStanding ==
    (Over /\ CountTrue(s.act) = 1) =>
      \A i \in 1..N : s.pay[i] = IF In(i) THEN SumSeq(s.tot) - s.tot[i] ELSE -s.tot[i]
(* C13 *)
Idempotent == [][(s.ph = "over" /\ act' \in {"AfterEnd", "RefusedDeal"}) => s' = s]_vars
=============================================================================

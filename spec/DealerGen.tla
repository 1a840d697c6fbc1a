------------------------------ MODULE DealerGen ------------------------------
(***************************************************************************)
(* Enumerates every reachable situation of a small table and prints, for   *)
(* each of them, how to get there and what every possible bet has to lead  *)
(* to: one test of the implementation per transition of the specification. *)
(*                                                                         *)
(* The way to a state (path) is a history variable hidden by the view, so  *)
(* that each state is visited, and printed, once.                          *)
(***************************************************************************)
EXTENDS Table, Json

CONSTANTS N, NS, MinStack, MaxStack, Blinds, Antes, RaiseSize, NumRaises, Keys, Buttons, Unit

Two12 == <<1, 2>>          Two00 == <<0, 0>>        Two01 == <<0, 1>>
Two11 == <<1, 1>>          Two21 == <<2, 1>>
Three120 == <<1, 2, 0>>    Three000 == <<0, 0, 0>>  Three010 == <<0, 1, 0>>
Three111 == <<1, 1, 1>>    Three110 == <<1, 1, 0>>  Three112 == <<1, 1, 2>>
Four1200 == <<1, 2, 0, 0>> Four0000 == <<0, 0, 0, 0>> Four1100 == <<1, 1, 0, 0>>
Four0100 == <<0, 1, 0, 0>> Four1111 == <<1, 1, 1, 1>>

C == [n |-> N, ns |-> NS, blinds |-> Blinds, antes |-> Antes,
      rs |-> Rep(RaiseSize, NS), nr |-> Rep(NumRaises, NS), nh |-> 1,
      nc |-> [i \in 1..NS |-> IF i = 1 THEN 0 ELSE 1], start |-> MaxStack,
      suits |-> 4, ranks |-> 13, k |-> 1, mand |-> 1, low |-> FALSE, ord |-> <<>>]

(* one card per seat, key 1 being the worst card there is; then the board cards, aces *)
Deck(key) == [i \in 1..N |-> key[i] - 1 + 13 * (i - 1)] \o [i \in 1..(NS - 1) |-> 12 + 13 * (i - 1)]

VARIABLES s, start, path
vars == <<s, start, path>>
view == <<[s EXCEPT !.last = <<>>], start.key>>

Init == /\ path = <<>>
        /\ \E st \in [1..N -> MinStack..MaxStack], b \in Buttons, key \in [1..N -> 1..Keys] :
             /\ Cardinality({i \in 1..N : st[i] > 0}) >= 2
             /\ \A i \in 1..N : st[i] = 0 => key[i] = 1
             /\ start = [st |-> st, b |-> b, key |-> key]
             /\ s = ResetTable(C, [FreshTable(C) EXCEPT !.st = st, !.but = b],
                               FALSE, FALSE, Deck(key))

(* in eighths of a chip, Unit apart *)
Bets == {b \in OfChips(-1)..OfChips(MaxStack + 1) : b % Unit = 0}

Next == /\ s.ph = "live"
        /\ \E b \in Bets : s' = StepTable(C, s, b) /\ path' = Append(path, b)
        /\ UNCHANGED start

Spec == Init /\ [][Next]_vars

Bit(q) == [i \in DOMAIN q |-> IF q[i] THEN 1 ELSE 0]
Outcome(b) ==
    LET z == StepTable(C, s, b)
        o == IF z.ph = "live" THEN Offers(C, z) ELSE NoOffers
    IN <<b, z.a - 1, z.st, Bit(z.act),
         IF z.ph = "live" THEN z.com ELSE <<>>,
         IF z.ph = "live" THEN SumSeq(z.tot) ELSE 0, o.call, o.min, o.max,
         IF z.ph = "live" THEN RunningPay(C, z) ELSE z.pay,
         Bit(DoneFlags(C, z)),
         IF z.ph = "over" /\ OnePlayerLeft(z) THEN -1 ELSE Len(z.board)>>

(* printed once for every state in which somebody is to act *)
Emit == IF s.ph # "live" THEN TRUE
        ELSE PrintT("GEN " \o ToJson([st |-> start.st, b |-> start.b,
                    deck |-> Deck(start.key), path |-> path,
                    out |-> [i \in 1..Cardinality(Bets) |-> Outcome(OfChips(-1) + (i - 1) * Unit)]]))
Header == IF TLCGet("stats").distinct > 0 THEN PrintT("CFG " \o ToJson(C)) ELSE FALSE
=============================================================================

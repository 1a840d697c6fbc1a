----------------------------- MODULE ConfigGen -------------------------------
(* Enumerates spelled configurations: three bases with up to Changes       *)
(* arguments spelled differently or wrongly; prints each once, with what   *)
(* it means.  Checked on the way: meanings are well-formed, spelling out a *)
(* single value does not change the meaning, and the string and the float  *)
(* of infinity mean the same.                                              *)
EXTENDS Config, Json

CONSTANT Changes

One(x) == [one |-> TRUE, v |-> <<x>>]
List(q) == [one |-> FALSE, v |-> q]

Base == {
  [n |-> 3, ns |-> 2, blinds |-> List(<<"1", "2", "0">>), antes |-> One("0"), rs |-> One("inf"),
   nr |-> One("inf"), nc |-> List(<<"0", "1">>), suits |-> 4, ranks |-> 13, nh |-> 1, k |-> 1,
   mand |-> 0, start |-> 20, low |-> TRUE, nolow |-> FALSE, noord |-> FALSE, ord |-> <<>>],
  [n |-> 2, ns |-> 1, blinds |-> One("0"), antes |-> One("1"), rs |-> List(<<"2">>),
   nr |-> List(<<"2">>), nc |-> One("1"), suits |-> 2, ranks |-> 5, nh |-> 2, k |-> 3,
   mand |-> 2, start |-> 10, low |-> TRUE, nolow |-> FALSE, noord |-> FALSE, ord |-> Codes],
  [n |-> 4, ns |-> 3, blinds |-> List(<<"1", "2", "4", "0">>), antes |-> List(<<"0", "2", "0", "0">>),
   rs |-> List(<<"2", "4", "pot">>), nr |-> List(<<"1", "2", "inf">>), nc |-> List(<<"1", "0", "2">>),
   suits |-> 4, ranks |-> 9, nh |-> 2, k |-> 2, mand |-> 1, start |-> 100, low |-> FALSE,
   nolow |-> FALSE, noord |-> FALSE, ord |-> <<"hc", "sf", "fk", "fl", "fh", "st", "tk", "tp", "pa">>] }

Lists(vals) == {List(q) : q \in UNION {[1..m -> vals] : m \in 0..3}}
Chips == {One("0"), One("1"), One("2"), List(<<>>), List(<<"1">>), List(<<"1", "2">>), List(<<"0", "1">>),
          List(<<"1", "2", "3">>), List(<<"2", "0", "1">>), List(<<"1", "1", "1">>), List(<<"2", "2">>),
          List(<<"1", "2", "0", "0">>), List(<<"3", "3", "3", "3">>), List(<<"1", "2", "0", "0", "0">>)}
Sizes == {One(x) : x \in {"1", "2", "3", "pot", "inf", "float inf", "half", "2.5", "none", "Pot", "INF", ""}}
         \cup {List(<<x>>) : x \in {"2", "pot", "inf", "float inf", "half"}}
         \cup {List(<<x, y>>) : x, y \in {"2", "pot", "inf", "float inf", "bad"}}
         \cup {List(<<"2", "4", "4">>), List(<<"pot", "inf", "float inf">>), List(<<"inf", "inf", "none">>),
               List(<<"1", "1", "1", "1">>), List(<<>>)}
Times == {One(x) : x \in {"0", "1", "3", "inf", "float inf"}}
         \cup {List(<<x>>) : x \in {"1", "inf", "float inf"}}
         \cup {List(<<x, y>>) : x, y \in {"1", "2", "inf", "float inf"}}
         \cup {List(<<"0", "float inf", "1">>), List(<<"inf", "inf", "inf">>), List(<<"1", "1", "1", "1">>), List(<<>>)}
Boards == {One("0"), One("1"), One("2"), List(<<>>), List(<<"1">>), List(<<"3">>), List(<<"1", "1">>),
           List(<<"3", "0">>), List(<<"1", "0", "1">>), List(<<"0", "1", "1", "1">>), List(<<"2", "1", "0">>)}
Orders == {<<>>, Codes, Reverse(Codes), <<"sf">>, SubSeq(Codes, 1, 8), Codes \o <<"sf">>,
           [Codes EXCEPT ![3] = "sf"], [Codes EXCEPT ![9] = "xx"], [Codes EXCEPT ![1] = "SF"],
           <<"sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc">>}

(* all single changes of an argument *)
Change(g) ==
    {[g EXCEPT !.blinds = x] : x \in Chips} \cup {[g EXCEPT !.antes = x] : x \in Chips}
    \cup {[g EXCEPT !.rs = x] : x \in Sizes} \cup {[g EXCEPT !.nr = x] : x \in Times}
    \cup {[g EXCEPT !.nc = x] : x \in Boards} \cup {[g EXCEPT !.ord = x] : x \in Orders}
    \cup {[g EXCEPT !.suits = x] : x \in {0, 1, 3, 4, 5, 13}}
    \cup {[g EXCEPT !.ranks = x] : x \in {0, 1, 7, 13, 14, 52}}
    \cup {[g EXCEPT !.k = x] : x \in {0, 1, 2, 3, 5, 6, 7}}
    \cup {[g EXCEPT !.low = x] : x \in BOOLEAN}
    \cup {[g EXCEPT !.nolow = TRUE], [g EXCEPT !.noord = TRUE]}

VARIABLES g, n
vars == <<g, n>>

Init == g \in Base /\ n = 0
Next == n < Changes /\ n' = n + 1 /\ g' \in Change(g)
Spec == Init /\ [][Next]_vars
view == g

Total(c) == SumSeq(c.nc)
(* enough cards in the deck and in the hands: the table can be played *)
Playable(c) == /\ c.n * c.nh + Total(c) <= c.suits * c.ranks
               /\ c.mand <= Min2(c.nh, c.k)
               /\ IF c.mand = 0 THEN c.nh + Total(c) >= c.k ELSE Total(c) >= c.k - c.mand

WellFormed ==
    Refusals(g) = {} =>
      LET c == Meaning(g)
      IN /\ Len(c.blinds) = g.n /\ Len(c.antes) = g.n
         /\ Len(c.rs) = g.ns /\ Len(c.nr) = g.ns /\ Len(c.nc) = g.ns
         /\ \A i \in 1..g.ns : c.rs[i] \in {Pot, Inf} \/ c.rs[i] >= 0
SpeltOut ==
    Refusals(g) = {} =>
      LET out(f, m) == [one |-> FALSE, v |-> Spread(f, m)]
          h == [g EXCEPT !.blinds = out(@, g.n), !.antes = out(@, g.n), !.rs = out(@, g.ns),
                         !.nr = out(@, g.ns), !.nc = out(@, g.ns)]
      IN Refusals(h) = {} /\ Meaning(h) = Meaning(g)
SameInfinity ==
    Refusals(g) = {} =>
      LET f(x) == IF x = "inf" THEN "float inf" ELSE x
          flt(q) == [q EXCEPT !.v = [i \in DOMAIN @ |-> f(@[i])]]
          h == [g EXCEPT !.rs = flt(@), !.nr = flt(@)]
      IN Refusals(h) = {} /\ Meaning(h) = Meaning(g)

Emit == PrintT("GEN " \o ToJson(
          [g |-> g, errors |-> SetToSeq(Refusals(g)),
           cfg |-> IF Refusals(g) = {} THEN <<Meaning(g)>> ELSE <<>>,
           play |-> Refusals(g) = {} /\ Playable(Meaning(g))]))
=============================================================================

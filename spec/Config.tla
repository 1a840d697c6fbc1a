------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What the constructor arguments of a table mean, and which of them are   *)
(* refused (C21).                                                          *)
(*                                                                         *)
(* A spelled configuration g has the fields of a configuration (Table), of *)
(* which blinds, antes, rs, nr and nc are spelled as records               *)
(*   [one |-> a single value is given, v |-> the value(s) as text]         *)
(* where the text "inf" is the string, "float inf" the number infinity;    *)
(* ord is <<>> (none given) or a list of two-letter codes; nolow, noord:   *)
(* low or ord is left out altogether.                                      *)
(***************************************************************************)
EXTENDS Table

Numbers == [x \in {"0", "1", "2", "3", "4", "5", "6", "8", "10", "20", "100"} |->
              CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3
                [] x = "4" -> 4 [] x = "5" -> 5 [] x = "6" -> 6 [] x = "8" -> 8
                [] x = "10" -> 10 [] x = "20" -> 20 [] x = "100" -> 100]
IsNumber(x) == x \in DOMAIN Numbers
Infinite == {"inf", "float inf"}

(* one value stands for as many as are needed *)
Spread(f, m) == IF f.one THEN Rep(f.v[1], m) ELSE f.v
LengthOK(f, m) == f.one \/ Len(f.v) = m

SizeOf(x) == IF x = "pot" THEN Pot ELSE IF x \in Infinite THEN Inf ELSE Numbers[x]
TimesOf(x) == IF x \in Infinite THEN Unlimited ELSE Numbers[x]

OrderOK(q) == q = <<>> \/ (Len(q) = 9 /\ ToSet(q) = ToSet(Codes))

Refusals(g) ==
    UNION {
      Blame(/\ LengthOK(g.blinds, g.n) /\ LengthOK(g.antes, g.n)
            /\ LengthOK(g.rs, g.ns) /\ LengthOK(g.nr, g.ns) /\ LengthOK(g.nc, g.ns),
            {"InvalidConfigError"}),
      Blame(\A i \in DOMAIN g.rs.v : g.rs.v[i] \in Infinite \cup {"pot"} \/ IsNumber(g.rs.v[i]),
            {"InvalidRaiseSizeError"}),
      Blame(g.suits \in 1..4, {"InvalidSuitError"}),
      Blame(g.ranks \in 1..13, {"InvalidRankError"}),
      Blame(g.k \in 1..5, {"InvalidHandSizeError"}),
      Blame(g.noord \/ OrderOK(g.ord), {"InvalidOrderError"}) }

(* the configuration meant by a spelling which is not refused *)
Meaning(g) ==
    [n |-> g.n, ns |-> g.ns,
     blinds |-> [i \in 1..g.n |-> Numbers[Spread(g.blinds, g.n)[i]]],
     antes |-> [i \in 1..g.n |-> Numbers[Spread(g.antes, g.n)[i]]],
     rs |-> [i \in 1..g.ns |-> SizeOf(Spread(g.rs, g.ns)[i])],
     nr |-> [i \in 1..g.ns |-> TimesOf(Spread(g.nr, g.ns)[i])],
     nc |-> [i \in 1..g.ns |-> Numbers[Spread(g.nc, g.ns)[i]]],
     suits |-> g.suits, ranks |-> g.ranks, nh |-> g.nh, k |-> g.k, mand |-> g.mand,
     start |-> g.start, low |-> (g.nolow \/ g.low),
     ord |-> IF g.noord THEN <<>> ELSE [i \in DOMAIN g.ord |-> ClassOfCode(g.ord[i])]]
=============================================================================

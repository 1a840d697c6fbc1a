-------------------------------- MODULE Util --------------------------------
(* Small integer and sequence helpers shared by all modules. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

MaxSeq(q) == FoldSeq(LAMBDA x, y : Max2(x, y), q[1], q)
SumSeq(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
SumOver(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)
CountTrue(q) == Cardinality({i \in DOMAIN q : q[i]})

RECURSIVE Pow(_, _)
Pow(b, e) == IF e <= 0 THEN 1 ELSE b * Pow(b, e - 1)

RECURSIVE Binom(_, _)
Binom(n, r) == IF r < 0 \/ n < r THEN 0
               ELSE IF r = 0 THEN 1
               ELSE (Binom(n - 1, r - 1) * n) \div r

(* <<x, x, ..., x>> *)
Rep(x, n) == [i \in 1..n |-> x]

(* clause helper: the set of property ids blamed when a clause fails *)
Blame(ok, ids) == IF ok THEN {} ELSE ids
=============================================================================

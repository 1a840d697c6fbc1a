------------------------------ MODULE HandTrace ------------------------------
(***************************************************************************)
(* Trace specification of the evaluator (C15-C17, C31).  Each line of the *)
(* file TRACE is one evaluator: its configuration, what its text form      *)
(* lists, and evaluated cards in the order of the ranks reported, best     *)
(* first.  cfg.ord is the order of the classes in force: the custom order, *)
(* or the one the evaluator lists (whose justification is C17's business). *)
(*                                                                         *)
(* row: h hole cards, b board cards, m mandatory hole cards, r the rank,   *)
(* c the id of the class name reported for r (0: none of the nine).        *)
(***************************************************************************)
EXTENDS HandRank, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, prev
vars == <<t, l, prev>>

(* prev: <<key, rank>> of the row before *)
Init == t \in 1..Len(Traces) /\ l = 0 /\ prev = <<0, 0>>

RowKey(cf, pos, row) ==
    LET c == [cf EXCEPT !.mand = row.m]
    IN BestKeyP(c, pos, ToSet(row.h), ToSet(row.b))

Positions(cf) == [i \in 1..9 |-> CHOOSE p \in 1..9 : cf.ord[p] = i]

(* the single-hand rows decide C15, the ones with a choice of cards C16 *)
Ids(cf, row) == IF Len(row.h) + Len(row.b) = cf.k THEN {"C15"} ELSE {"C16"}
(* share of all hands in millionths, rounded to the nearest, by long       *)
(* division (the products do not fit)                                      *)
RECURSIVE LongDiv(_, _, _, _)
LongDiv(rem, total, digits, acc) ==
    IF digits = 0 THEN <<acc, rem>>
    ELSE LET x == rem * 10
         IN LongDiv(x % total, total, digits - 1, acc * 10 + (x \div total))
ShareOK(share, count, total) ==
    LET d == LongDiv(count % total, total, 6, count \div total)
        nearest == IF 2 * d[2] < total THEN {d[1]}
                   ELSE IF 2 * d[2] > total THEN {d[1] + 1} ELSE {d[1], d[1] + 1}
    IN share \in nearest

(* what the text form lists: [class id, share in millionths] *)
ListDiff(rec) ==
    LET cf == rec.cfg
        ls == rec.listed
        cls == [i \in DOMAIN ls |-> ls[i][1]]
        n == Counts(cf)
        total == SumOver(1..9, LAMBDA i : n[i])
    IN IF ~rec.list THEN {}
       ELSE UNION {
         Blame(IsInjective(cls) /\ ToSet(cls) = Possible(cf), {"C17"}),
         Blame(IF rec.custom
               THEN \A i, j \in DOMAIN cls : i < j =>
                      \E p, q \in 1..9 : p < q /\ cf.ord[p] = cls[i] /\ cf.ord[q] = cls[j]
               ELSE \A i \in 1..(Len(cls) - 1) :
                      cls[i] \in 1..9 /\ cls[i + 1] \in 1..9 => n[cls[i]] <= n[cls[i + 1]], {"C17"}),
         Blame(\A i \in DOMAIN ls : ls[i][1] \in 1..9 => ShareOK(ls[i][2], n[ls[i][1]], total), {"C17"}) }

(* every kind of hand appears: as many different ranks as there are        *)
(* different ranks-and-flushness patterns                                  *)
Kinds(c) ==
    LET r == c.ranks  s == c.suits  k == c.k
        b(n, m) == Binom(n, m)
        multi == \* multisets of k ranks, no rank more often than there are suits
          IF k = 1 THEN r
          ELSE IF k = 2 THEN b(r, 2) + (IF s >= 2 THEN r ELSE 0)
          ELSE IF k = 3 THEN b(r, 3) + (IF s >= 2 THEN r * (r - 1) ELSE 0) + (IF s >= 3 THEN r ELSE 0)
          ELSE IF k = 4 THEN b(r, 4) + (IF s >= 2 THEN r * b(r - 1, 2) + b(r, 2) ELSE 0)
                             + (IF s >= 3 THEN r * (r - 1) ELSE 0) + (IF s >= 4 THEN r ELSE 0)
          ELSE b(r, 5) + (IF s >= 2 THEN r * b(r - 1, 3) + b(r, 2) * (r - 2) ELSE 0)
               + (IF s >= 3 THEN r * b(r - 1, 2) + r * (r - 1) ELSE 0)
               + (IF s >= 4 THEN r * (r - 1) ELSE 0)
    IN multi + (IF HasFlush(c) THEN b(r, k) ELSE 0)

EndDiff(rec) ==
    Blame(rec.complete => rec.kinds = Kinds(rec.cfg), {"C15"})

(* ranks outside the table, orders: [what was tried, error]                *)
RefuseDiff(rec) ==
    UNION {Blame(rec.refused[i][2] = rec.refused[i][3], {rec.refused[i][1]}) : i \in DOMAIN rec.refused}

Report(bad, pos) ==
    IF bad = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> pos,
                                  bad |-> SetToSeq(bad \cup ToSet(Traces[t].tags))]))

(* What the rank of a row may be (C31): the first rank of its class for    *)
(* the best hand, the next one for the next hand; only if all hands are    *)
(* there can it be told which the next one is.                             *)
NumberOK(rec, first, cls, key, row, before, i) ==
    /\ row.r >= first[cls][1] /\ row.r < first[cls][1] + first[cls][2]
    /\ rec.complete =>
         IF i = 1 \/ before.cls # cls THEN row.r = first[cls][1]
         ELSE row.r = before.rank + (IF key = before.key THEN 0 ELSE 1)

(* several rows per step *)
Chunk == 50

ClassOfKey(cf, k) == cf.ord[10 - (k \div 371293)]

(* rows i..upto one after the other; of a property, only the first         *)
(* disagreement counts                                                     *)
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(rec, pos, first, i, upto, key, rank, bad) ==
    IF i > upto THEN [key |-> key, rank |-> rank, bad |-> bad]
    ELSE LET row == rec.rows[i]
             k == RowKey(rec.cfg, pos, row)
             before == IF i = 1 THEN <<>> ELSE rec.rows[i - 1]
             ids == Ids(rec.cfg, row) \cup (IF i = 1 THEN {} ELSE Ids(rec.cfg, before))
             ok == i = 1 \/ (row.r = rank /\ k = key) \/ (row.r > rank /\ k < key)
             cls == ClassOfKey(rec.cfg, k)
             was == [cls |-> IF i = 1 THEN 0 ELSE ClassOfKey(rec.cfg, key), key |-> key, rank |-> rank]
             b == Blame(ok, ids) \cup Blame(row.r >= 0, ids) \cup Blame(row.c = cls, {"C17"})
                  \cup Blame(NumberOK(rec, first, cls, k, row, was, i), {"C31"})
             new == b \ UNION {x[2] : x \in bad}
         IN Walk(rec, pos, first, i + 1, upto, k, row.r, IF new # {} THEN bad \cup {<<i, new>>} ELSE bad)

Start ==
    /\ l = 0
    /\ LET rec == Traces[t]
       IN Report(ListDiff(rec) \cup EndDiff(rec) \cup RefuseDiff(rec), 0)
    /\ l' = 1 /\ prev' = <<0, 0>> /\ t' = t

Consume ==
    /\ l >= 1 /\ l <= Len(Traces[t].rows)
    /\ LET rec == Traces[t]
           upto == Min2(l + Chunk - 1, Len(rec.rows))
           pos == Positions(rec.cfg)
           first == TLCEval([x \in 1..9 |-> <<FirstRank(rec.cfg, pos, x), Distinct(rec.cfg, x)>>])
           w == Walk(rec, pos, first, l, upto, prev[1], prev[2], {})
       IN /\ \A x \in w.bad : Report(x[2], x[1])
          /\ prev' = <<w.key, w.rank>>
          /\ l' = upto + 1
    /\ t' = t

Spec == Init /\ [][Start \/ Consume]_vars
=============================================================================

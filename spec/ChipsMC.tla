------------------------------- MODULE ChipsMC -------------------------------
(* The table does nothing which Chips does not allow: what Apalache shows  *)
(* of Chips for any number of chips is true of Table (refinement, on the   *)
(* instances TLC can explore).                                             *)
EXTENDS DealerMC

Ch(x, f) == INSTANCE Chips WITH
    NR <- NumRaises, RS <- RaiseSize, Blind <- Blinds, Ante <- Antes,
    but <- s.but, live <- s.ph = "live", hs <- s.hs, st <- s.st, tot <- s.tot, com <- s.com,
    act <- s.act, opt <- s.opt, street <- s.street, sr <- s.sr, lr <- s.lr, a <- s.a,
    top <- MaxSeq(s.com), pot <- SumSeq(s.tot), pay <- s.pay,
    oc <- IF s.ph = "live" THEN O.call ELSE 0,
    omin <- IF s.ph = "live" THEN O.min ELSE 0,
    omax <- IF s.ph = "live" THEN O.max ELSE 0,
    amt <- x, folds <- f

(* every deal, every action *)
DealtLikeChips == Dealt => \E fp \in 1..N : Ch(0, FALSE)!Dealt(fp)
ActsLikeChips ==
    [][act' \in {"Fold", "Check", "Call", "Raise"} =>
       \E x \in 0..MaxStack, f \in BOOLEAN : s'.last[2] = x /\ s'.last[3] = f /\ Ch(x, f)!Next]_vars
(* as a check of the invariant itself *)
IndHolds == (Live \/ Over) => Ch(0, FALSE)!Ind /\ Ch(0, FALSE)!Follows
=============================================================================

SPECIFICATION Spec
CONSTANTS
 N = 2
 NS = 2
 MaxStack = 3
 Blinds <- Two12
 Antes <- Two01
 RaiseSize <- Inf
 NumRaises = 2
 Strengths0 = 2
 Hands = 2
 WithAbandon = TRUE
INVARIANTS Conserved NoDebt ForcedBets TurnOrder OffersSound BetsSound RaiseCap StreetsEnd Bounded FairShowdown EvenSplit LastOneStanding
PROPERTIES Idempotent HandsEnd
CHECK_DEADLOCK FALSE

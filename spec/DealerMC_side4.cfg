SPECIFICATION Spec
CONSTANTS
 N = 4
 NS = 1
 MaxStack = 3
 Blinds <- Four0000
 Antes <- Four1100
 RaiseSize <- Inf
 NumRaises = 1000000
 Strengths0 = 2
 Hands = 1
 WithAbandon = FALSE
INVARIANTS Conserved NoDebt ForcedBets TurnOrder OffersSound BetsSound RaiseCap StreetsEnd Bounded FairShowdown EvenSplit LastOneStanding
PROPERTIES Idempotent HandsEnd
CHECK_DEADLOCK FALSE

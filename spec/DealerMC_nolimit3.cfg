SPECIFICATION Spec
CONSTANTS
 N = 3
 NS = 2
 MaxStack = 3
 Blinds <- Three120
 Antes <- Three000
 RaiseSize <- Inf
 NumRaises = 1000000
 Strengths0 = 2
 Hands = 1
 WithAbandon = FALSE
INVARIANTS Conserved NoDebt ForcedBets TurnOrder OffersSound BetsSound RaiseCap StreetsEnd Bounded FairShowdown EvenSplit LastOneStanding
PROPERTIES Idempotent HandsEnd
CHECK_DEADLOCK FALSE

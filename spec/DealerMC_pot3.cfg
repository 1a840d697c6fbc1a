SPECIFICATION Spec
CONSTANTS
 N = 3
 NS = 1
 MaxStack = 6
 Blinds <- Three120
 Antes <- Three010
 RaiseSize <- Pot
 NumRaises = 3
 Strengths0 = 1
 Hands = 1
 WithAbandon = FALSE
INVARIANTS Conserved NoDebt ForcedBets TurnOrder OffersSound BetsSound RaiseCap StreetsEnd Bounded FairShowdown EvenSplit LastOneStanding
PROPERTIES Idempotent HandsEnd
CHECK_DEADLOCK FALSE

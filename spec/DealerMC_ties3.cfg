SPECIFICATION Spec
CONSTANTS
 N = 3
 NS = 1
 MaxStack = 4
 Blinds <- Three110
 Antes <- Three111
 RaiseSize <- Inf
 NumRaises = 1
 Strengths0 = 3
 Hands = 1
 WithAbandon = FALSE
INVARIANTS Conserved NoDebt ForcedBets TurnOrder OffersSound BetsSound RaiseCap StreetsEnd Bounded FairShowdown EvenSplit LastOneStanding
PROPERTIES Idempotent HandsEnd
CHECK_DEADLOCK FALSE

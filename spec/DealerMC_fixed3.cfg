SPECIFICATION Spec
CONSTANTS
 N = 3
 NS = 2
 MaxStack = 5
 Blinds <- Three120
 Antes <- Three000
 RaiseSize = 2
 NumRaises = 2
 Strengths0 = 1
 Hands = 1
 WithAbandon = FALSE
INVARIANTS Conserved NoDebt ForcedBets TurnOrder OffersSound BetsSound RaiseCap StreetsEnd Bounded FairShowdown EvenSplit LastOneStanding
PROPERTIES Idempotent HandsEnd
CHECK_DEADLOCK FALSE

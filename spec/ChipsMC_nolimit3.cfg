SPECIFICATION Spec
CONSTANTS
 N = 3
 NS = 2
 MaxStack = 3
 Blinds <- Three120
 Antes <- Three000
 RaiseSize <- Inf
 NumRaises = 1000000
 Strengths0 = 1
 Hands = 1
 WithAbandon = FALSE
INVARIANTS DealtLikeChips IndHolds
PROPERTIES ActsLikeChips
CHECK_DEADLOCK FALSE

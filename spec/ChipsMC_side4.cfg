SPECIFICATION Spec
CONSTANTS
 N = 4
 NS = 1
 MaxStack = 3
 Blinds <- Four0000
 Antes <- Four1100
 RaiseSize <- Inf
 NumRaises = 1000000
 Strengths0 = 1
 Hands = 1
 WithAbandon = FALSE
INVARIANTS DealtLikeChips IndHolds
PROPERTIES ActsLikeChips
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 N = 3
 NS = 1
 MaxStack = 6
 Blinds <- Three120
 Antes <- Three010
 RaiseSize <- Pot
 NumRaises = 3
 Strengths0 = 1
 Hands = 1
 WithAbandon = FALSE
INVARIANTS DealtLikeChips IndHolds
PROPERTIES ActsLikeChips
CHECK_DEADLOCK FALSE

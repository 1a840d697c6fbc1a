SPECIFICATION Spec
CONSTANTS
 N = 2
 NS = 2
 MaxStack = 3
 Blinds <- Two12
 Antes <- Two01
 RaiseSize <- Inf
 NumRaises = 2
 Strengths0 = 1
 Hands = 1
 WithAbandon = FALSE
INVARIANTS DealtLikeChips IndHolds
PROPERTIES ActsLikeChips
CHECK_DEADLOCK FALSE

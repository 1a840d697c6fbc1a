SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 4
 NS = 1
 MinStack = 0
 MaxStack = 2
 Blinds <- Four0100
 Antes <- Four1100
 RaiseSize <- Inf
 NumRaises = 1000000
 Keys = 2
 Unit = 8
 Buttons = {1, 2}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

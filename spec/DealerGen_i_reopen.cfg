SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 3
 NS = 1
 MinStack = 2
 MaxStack = 8
 Blinds <- Three120
 Antes <- Three000
 RaiseSize <- Inf
 NumRaises = 1000000
 Keys = 1
 Unit = 8
 Buttons = {1}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

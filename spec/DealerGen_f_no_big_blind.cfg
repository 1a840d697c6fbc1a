SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 3
 NS = 2
 MinStack = 1
 MaxStack = 3
 Blinds <- Three000
 Antes <- Three111
 RaiseSize <- Inf
 NumRaises = 1000000
 Keys = 2
 Unit = 8
 Buttons = {2}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 2
 NS = 3
 MinStack = 1
 MaxStack = 5
 Blinds <- Two12
 Antes <- Two00
 RaiseSize <- Inf
 NumRaises = 1
 Keys = 2
 Unit = 8
 Buttons = {1}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 2
 NS = 1
 MinStack = 2
 MaxStack = 6
 Blinds <- Two12
 Antes <- Two00
 RaiseSize <- Inf
 NumRaises = 1000000
 Keys = 1
 Unit = 1
 Buttons = {1}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 3
 NS = 2
 MinStack = 0
 MaxStack = 3
 Blinds <- Three112
 Antes <- Three010
 RaiseSize <- Pot
 NumRaises = 2
 Keys = 2
 Unit = 8
 Buttons = {1, 3}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

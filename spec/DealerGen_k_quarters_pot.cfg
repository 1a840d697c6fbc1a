SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 3
 NS = 1
 MinStack = 3
 MaxStack = 4
 Blinds <- Three120
 Antes <- Three000
 RaiseSize <- Pot
 NumRaises = 1000000
 Keys = 1
 Unit = 2
 Buttons = {2}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

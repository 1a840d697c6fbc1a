SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 3
 NS = 2
 MinStack = 0
 MaxStack = 3
 Blinds <- Three120
 Antes <- Three000
 RaiseSize = 1
 NumRaises = 0
 Keys = 2
 Unit = 8
 Buttons = {3}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

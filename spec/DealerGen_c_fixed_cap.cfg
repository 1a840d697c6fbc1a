SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 3
 NS = 1
 MinStack = 1
 MaxStack = 5
 Blinds <- Three120
 Antes <- Three000
 RaiseSize = 2
 NumRaises = 2
 Keys = 1
 Unit = 8
 Buttons = {1}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

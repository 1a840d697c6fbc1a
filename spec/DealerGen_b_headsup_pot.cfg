SPECIFICATION Spec
VIEW view
CONSTANTS
 N = 2
 NS = 2
 MinStack = 0
 MaxStack = 6
 Blinds <- Two12
 Antes <- Two01
 RaiseSize <- Pot
 NumRaises = 1000000
 Keys = 2
 Unit = 8
 Buttons = {1, 2}
INVARIANT Emit
POSTCONDITION Header
CHECK_DEADLOCK FALSE

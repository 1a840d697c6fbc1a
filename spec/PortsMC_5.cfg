SPECIFICATION Spec
CONSTANTS
 A = 3
 T = 3
 Length = 5
INVARIANTS OneAddress Apart OwnStates Emit
CHECK_DEADLOCK FALSE

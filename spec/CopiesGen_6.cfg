SPECIFICATION Spec
CONSTANTS
 Moves = 6
 MaxTables = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Objects = 3
 Calls = 3
INVARIANTS Independent Emit
PROPERTIES OnlyOneMoves Finishes
CHECK_DEADLOCK FALSE

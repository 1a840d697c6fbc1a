SPECIFICATION Spec
CONSTANTS
 Objects = 4
 Calls = 2
INVARIANTS Independent Emit
PROPERTIES OnlyOneMoves Finishes
CHECK_DEADLOCK FALSE

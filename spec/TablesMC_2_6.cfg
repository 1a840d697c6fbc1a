SPECIFICATION Spec
CONSTANTS
 Objects = 2
 Calls = 6
INVARIANTS Independent Emit
PROPERTIES OnlyOneMoves Finishes
CHECK_DEADLOCK FALSE

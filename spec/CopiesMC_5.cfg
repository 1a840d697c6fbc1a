SPECIFICATION Spec
CONSTANTS
 Moves = 5
 MaxTables = 3
INVARIANTS Alike
PROPERTIES OnlyOneMoves CopyIsAlike
CHECK_DEADLOCK FALSE

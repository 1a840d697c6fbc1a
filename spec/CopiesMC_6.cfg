SPECIFICATION Spec
CONSTANTS
 Moves = 6
 MaxTables = 3
INVARIANTS Alike
PROPERTIES OnlyOneMoves CopyIsAlike
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Suits = 2
 Ranks = 4
 K = 3
 Mand = 0
 NH = 1
 Board = 3
 N = 2
INVARIANTS Averages SomebodyWins SeatsDoNotMatter SuitsDoNotMatter SharesSumToOne
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Suits = 2
 Ranks = 3
 K = 2
 Mand = 0
 NH = 1
 Board = 2
 N = 2
INVARIANTS Averages SomebodyWins SeatsDoNotMatter SuitsDoNotMatter SharesSumToOne
CHECK_DEADLOCK FALSE

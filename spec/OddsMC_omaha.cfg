SPECIFICATION Spec
CONSTANTS
 Suits = 2
 Ranks = 4
 K = 3
 Mand = 1
 NH = 2
 Board = 2
 N = 2
INVARIANTS Averages SomebodyWins SeatsDoNotMatter SuitsDoNotMatter SharesSumToOne
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Suits = 2
 Ranks = 3
 K = 1
 Mand = 0
 NH = 1
 Board = 3
 N = 2
INVARIANTS Averages SomebodyWins OneCardToo SeatsDoNotMatter SuitsDoNotMatter SharesSumToOne
CHECK_DEADLOCK FALSE

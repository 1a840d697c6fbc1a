SPECIFICATION Spec
CONSTANTS
 Suits = 2
 Ranks = 4
 K = 3
 Low = TRUE
 MaxHole = 2
 MaxBoard = 3
INVARIANTS OneOfThem MustIsNoHelp AnyWayIsOneOfThem MoreIsNoHarm SuitsDoNotMatter
CHECK_DEADLOCK FALSE

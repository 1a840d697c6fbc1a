SPECIFICATION Spec
CONSTANTS
 Suits = 3
 Ranks = 3
 K = 2
 Low = TRUE
 MaxHole = 2
 MaxBoard = 3
INVARIANTS OneOfThem MustIsNoHelp AnyWayIsOneOfThem MoreIsNoHarm SuitsDoNotMatter
CHECK_DEADLOCK FALSE

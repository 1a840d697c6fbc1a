SPECIFICATION Spec
CONSTANTS
 Suits = 2
 Ranks = 5
 K = 4
 Low = FALSE
 MaxHole = 2
 MaxBoard = 4
INVARIANTS OneOfThem MustIsNoHelp AnyWayIsOneOfThem MoreIsNoHarm SuitsDoNotMatter
CHECK_DEADLOCK FALSE

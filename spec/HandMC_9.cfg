SPECIFICATION Spec
CONSTANTS
 MaxCards = 9
INVARIANTS CountsAreRight TotalIsRight DistinctIsRight SuitsDontMatter OrderIsByRarity
CHECK_DEADLOCK FALSE

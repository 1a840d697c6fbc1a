SPECIFICATION Spec
CONSTANTS
 MaxCards = 16
INVARIANTS CountsAreRight TotalIsRight DistinctIsRight SuitsDontMatter OrderIsByRarity
CHECK_DEADLOCK FALSE

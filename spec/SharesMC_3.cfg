SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxTot = 4
 Keys = 3
INVARIANTS AwardedLikeShares
CHECK_DEADLOCK FALSE

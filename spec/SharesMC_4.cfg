SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxTot = 3
 Keys = 3
INVARIANTS AwardedLikeShares
CHECK_DEADLOCK FALSE

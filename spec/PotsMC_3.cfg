SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxTot = 4
 Keys = 3
INVARIANTS SameAsByChip AllPaid OnlyIn Matched BeatenLoses BestTakesAll BestKeepsHis EqualShares
CHECK_DEADLOCK FALSE

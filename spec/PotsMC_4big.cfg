SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxTot = 4
 Keys = 4
INVARIANTS SameAsByChip AllPaid OnlyIn Matched BeatenLoses BestTakesAll BestKeepsHis EqualShares
CHECK_DEADLOCK FALSE

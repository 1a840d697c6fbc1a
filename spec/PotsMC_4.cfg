SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxTot = 2
 Keys = 3
INVARIANTS SameAsByChip AllPaid OnlyIn Matched BeatenLoses BestTakesAll BestKeepsHis EqualShares
CHECK_DEADLOCK FALSE

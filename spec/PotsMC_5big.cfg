SPECIFICATION Spec
CONSTANTS
 N = 5
 MaxTot = 2
 Keys = 3
INVARIANTS SameAsByChip AllPaid OnlyIn Matched BeatenLoses BestTakesAll BestKeepsHis EqualShares
CHECK_DEADLOCK FALSE

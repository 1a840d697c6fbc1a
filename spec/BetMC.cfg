SPECIFICATION Spec
CONSTANTS
 Stack = 12
INVARIANTS NearestIsLegal NearestIsNearest LegalStays FoldsOnly NoFreeFold FoldIsFree CallOrMore TooMuchIsMax SameAsBets
CHECK_DEADLOCK FALSE

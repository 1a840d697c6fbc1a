SPECIFICATION Spec
INVARIANT LastOnly
CHECK_DEADLOCK FALSE

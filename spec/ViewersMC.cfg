SPECIFICATION Spec
INVARIANT Hidden
CHECK_DEADLOCK FALSE

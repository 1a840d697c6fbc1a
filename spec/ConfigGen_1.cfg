SPECIFICATION Spec
VIEW view
CONSTANT Changes = 1
INVARIANTS WellFormed SpeltOut SameInfinity Emit
CHECK_DEADLOCK FALSE

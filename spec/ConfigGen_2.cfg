SPECIFICATION Spec
VIEW view
CONSTANT Changes = 2
INVARIANTS WellFormed SpeltOut SameInfinity Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Clients = {c1, c2}
 Renders = 4
 Leaving = TRUE
INVARIANTS Allowed NoFuture
PROPERTIES Latest
CHECK_DEADLOCK FALSE

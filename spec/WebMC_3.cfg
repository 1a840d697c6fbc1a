SPECIFICATION Spec
CONSTANTS
 Clients = {c1, c2, c3}
 Renders = 2
 Leaving = FALSE
INVARIANTS Allowed NoFuture
PROPERTIES Latest
CHECK_DEADLOCK FALSE

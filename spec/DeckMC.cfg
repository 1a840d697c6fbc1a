SPECIFICATION Spec
CONSTANTS
 S = 2
 R = 2
 Depth = 4
INVARIANTS EachCardOnce TrickHonoured AnyOrder
CHECK_DEADLOCK FALSE

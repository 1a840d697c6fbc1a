SPECIFICATION Spec
CONSTANTS
 Length = 5
 Kinds = {"str", "repr", "ascii", "odds", "nonsense", "parts"}
INVARIANTS Unmoved Faithful Repeatable Emit
CHECK_DEADLOCK FALSE

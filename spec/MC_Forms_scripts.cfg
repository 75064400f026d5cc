SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE

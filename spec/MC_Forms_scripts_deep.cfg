SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE

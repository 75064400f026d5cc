SPECIFICATION Spec
CONSTANTS
  Ops <- MCOps
  Depth = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Ops <- MCOps
  Depth = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE

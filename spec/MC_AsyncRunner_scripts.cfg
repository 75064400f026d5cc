SPECIFICATION Spec
CONSTANTS
  Sites = {1, 2}
  MaxSteps = 2
  Depth = 0
  Queue = "fifo"
INVARIANTS Emit
CHECK_DEADLOCK FALSE

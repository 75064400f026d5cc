SPECIFICATION Spec
CONSTANTS
  Sites = {1, 2}
  MaxSteps = 2
  Depth = 0
  Queue = "fifo"
INVARIANTS Fifo
PROPERTIES Finishes
CHECK_DEADLOCK FALSE

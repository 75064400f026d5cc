SPECIFICATION Spec
CONSTANTS
  Batches <- MCBatches
  MaxSteps = 3
  Depth = 5
  HandOut = "copy"
INVARIANTS Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Batches <- MCBatches
  MaxSteps = 3
  Depth = 5
  HandOut = "alias"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Batches <- MCBatches
  MaxSteps = 3
  Depth = 5
  HandOut = "copy"
INVARIANTS Faithful ReadyExists
PROPERTIES PastFixed
CHECK_DEADLOCK FALSE

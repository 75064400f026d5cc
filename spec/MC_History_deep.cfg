SPECIFICATION Spec
CONSTANTS
  Batches <- MCBatches
  MaxSteps = 4
  Depth = 6
  HandOut = "copy"
INVARIANTS Faithful ReadyExists
PROPERTIES PastFixed
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NSites = 3
  NSteps = 3
  NWorkers = 2
  Chunk = 2
  Send = "delta"
INVARIANTS SerialStep EveryBatchOnce
PROPERTIES StepIsSerial
CHECK_DEADLOCK FALSE

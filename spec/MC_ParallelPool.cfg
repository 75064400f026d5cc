SPECIFICATION Spec
CONSTANTS
  NSites = 3
  NSteps = 2
  NWorkers = 2
  Chunk = 2
  Send = "full"
INVARIANTS SerialStep EveryBatchOnce
PROPERTIES StepIsSerial
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NSites = 4
  NSteps = 2
  NWorkers = 3
  Chunk = 1
  Send = "full"
INVARIANTS SerialStep EveryBatchOnce
PROPERTIES StepIsSerial
CHECK_DEADLOCK FALSE

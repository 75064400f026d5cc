SPECIFICATION Spec
CONSTANTS
  Ops <- MCOps
  Depth = 5
INVARIANTS TypeOK IdsRecorded BatchIsParts
PROPERTIES FrameProperty
CHECK_DEADLOCK FALSE

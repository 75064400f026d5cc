SPECIFICATION Spec
CONSTANTS
  Ops <- MCOps
  Depth = 4
INVARIANTS TypeOK IdsRecorded BatchIsParts
PROPERTIES FrameProperty
CHECK_DEADLOCK FALSE

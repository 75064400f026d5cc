SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Buffer = 1
  MaxWant = 2
  MaxAmt = 2
  Method = "remainder"
  Tries = 3
INVARIANTS InQuota AllShared DoneRight CannotFit
PROPERTIES Ends
CHECK_DEADLOCK FALSE

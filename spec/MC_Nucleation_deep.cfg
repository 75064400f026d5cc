SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 4
  Buffer = 1
  MaxWant = 3
  MaxAmt = 2
  Method = "remainder"
  Tries = 5
INVARIANTS InQuota AllShared DoneRight CannotFit

CHECK_DEADLOCK FALSE

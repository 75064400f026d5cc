SPECIFICATION Spec
CONSTANTS
  W = 1
  H = 1
  Buffer = 0
  MaxWant = 12
  MaxAmt = 6
  Method = "remainder"
  Tries = 0
INVARIANTS InQuota AllShared

CHECK_DEADLOCK FALSE

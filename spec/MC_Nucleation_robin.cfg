SPECIFICATION Spec
CONSTANTS
  W = 1
  H = 1
  Buffer = 0
  MaxWant = 6
  MaxAmt = 6
  Method = "robin"
  Tries = 0
INVARIANTS InQuota

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxLim = 70
  D = 2
INVARIANTS Within MiddleSame Grows Hides Split
CHECK_DEADLOCK FALSE

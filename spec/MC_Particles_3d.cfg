SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxLim = 14
  D = 3
INVARIANTS Within MiddleSame Grows Hides Split
CHECK_DEADLOCK FALSE

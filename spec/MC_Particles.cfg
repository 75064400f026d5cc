SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxLim = 20
  D = 2
INVARIANTS Within MiddleSame Grows Hides Split
CHECK_DEADLOCK FALSE

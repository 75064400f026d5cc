SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
INVARIANTS KeptIsSame BrokenIsNoticed
CHECK_DEADLOCK FALSE

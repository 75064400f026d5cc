SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
INVARIANTS KeptIsSame BrokenIsNoticed
CHECK_DEADLOCK FALSE

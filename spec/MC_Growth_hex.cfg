SPECIFICATION GSpec
CONSTANTS
  W = 4
  H = 3
  Phases = {"a"}
  Kind = "hex"
  MaxNuclei = 2
INVARIANTS Kept SamePhases Front EnoughSteps
PROPERTIES StaysFilled Completes
CHECK_DEADLOCK FALSE

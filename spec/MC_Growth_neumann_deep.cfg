SPECIFICATION GSpec
CONSTANTS
  W = 4
  H = 3
  Phases = {"a", "b"}
  Kind = "neumann"
  MaxNuclei = 3
INVARIANTS Kept SamePhases Front EnoughSteps
PROPERTIES StaysFilled Completes
CHECK_DEADLOCK FALSE

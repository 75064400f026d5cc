SPECIFICATION GSpec
CONSTANTS
  W = 3
  H = 3
  Phases = {"a", "b"}
  Kind = "moore"
  MaxNuclei = 2
INVARIANTS Kept SamePhases Front EnoughSteps
PROPERTIES StaysFilled Completes
CHECK_DEADLOCK FALSE

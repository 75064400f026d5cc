SPECIFICATION GSpec
CONSTANTS
  W = 4
  H = 4
  Phases = {"a", "b"}
  Kind = "moore"
  MaxNuclei = 3
INVARIANTS Kept SamePhases Front EnoughSteps
PROPERTIES StaysFilled Completes
CHECK_DEADLOCK FALSE

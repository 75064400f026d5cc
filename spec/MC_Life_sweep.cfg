SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Rules <- OneRule
  Mode = "sweep"
  EmitScripts = FALSE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE

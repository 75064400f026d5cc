SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  Rules <- SomeRules
  Mode = "sync"
  EmitScripts = FALSE
INVARIANTS Equivariant Uniform Local
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Rules <- AllRules
  Mode = "sync"
  EmitScripts = FALSE
INVARIANTS Equivariant Uniform Local
CHECK_DEADLOCK FALSE

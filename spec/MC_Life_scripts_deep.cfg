SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  Rules <- AllRules
  Mode = "sync"
  EmitScripts = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE

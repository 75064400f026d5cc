SPECIFICATION ScriptSpec
CONSTANTS
  NSites = 3
  NSteps = 1
  View = "previous"
INVARIANTS Emit
CHECK_DEADLOCK FALSE

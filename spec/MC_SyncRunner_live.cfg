SPECIFICATION Spec
CONSTANTS
  NSites = 3
  NSteps = 2
  View = "live"
INVARIANTS Simultaneous
PROPERTIES OncePerStep
CHECK_DEADLOCK FALSE

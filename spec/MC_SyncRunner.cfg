SPECIFICATION Spec
CONSTANTS
  NSites = 3
  NSteps = 2
  View = "previous"
INVARIANTS Simultaneous Composes
PROPERTIES OncePerStep
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NSites = 4
  NSteps = 3
  View = "previous"
INVARIANTS Simultaneous Composes
PROPERTIES OncePerStep Finishes
CHECK_DEADLOCK FALSE

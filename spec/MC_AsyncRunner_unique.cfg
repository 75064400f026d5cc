SPECIFICATION Spec
CONSTANTS
  Sites = {1, 2}
  MaxSteps = 3
  Depth = 0
  Queue = "unique"
INVARIANTS Fifo OneStepPerVisit LastIsLive EndsForAReason RefusesWithoutSites
PROPERTIES OneSitePerStep
CHECK_DEADLOCK FALSE

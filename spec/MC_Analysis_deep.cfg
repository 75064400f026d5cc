SPECIFICATION Spec
CONSTANTS
  Sites = {1, 2, 3}
  Phases = {"a", "b", "c"}
  Steps = 2
INVARIANTS FractionsAddUp UnionOfSteps CountIsQuery PairsAreCriteria ClassesPartition
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  V <- V2
  Per <- PerAll
  Points <- Pts
  Classes = {"A", "B"}
  MaxSites = 4
  MaxOps = 4
  Store = "add"
INVARIANTS Emit
CHECK_DEADLOCK FALSE

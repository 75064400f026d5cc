SPECIFICATION Spec
CONSTANTS
  V <- V2
  Per <- PerOne
  Points <- PtsFew
  Classes = {"A", "B"}
  MaxSites = 3
  MaxOps = 3
  Store = "add"
INVARIANTS Emit
CHECK_DEADLOCK FALSE

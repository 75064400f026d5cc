SPECIFICATION Spec
CONSTANTS
  V <- V1
  Per <- PerAll
  Points <- Pts
  Classes = {"A", "B"}
  MaxSites = 3
  MaxOps = 3
  Store = "add"
INVARIANTS NoDoubleSite AllInCell FindsItsSite
PROPERTIES IdsStay RefusedKeeps
CHECK_DEADLOCK FALSE

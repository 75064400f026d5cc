SPECIFICATION Spec
CONSTANTS
  V <- V2
  Per <- PerAll
  Points <- Pts
  Classes = {"A", "B"}
  MaxSites = 2
  MaxOps = 3
  Store = "any"
INVARIANTS NoDoubleSite AllInCell FindsItsSite
PROPERTIES IdsStay RefusedKeeps
CHECK_DEADLOCK FALSE

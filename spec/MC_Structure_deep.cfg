SPECIFICATION Spec
CONSTANTS
  V <- V2
  Per <- PerOne
  Points <- Pts
  Classes = {"A", "B"}
  MaxSites = 4
  MaxOps = 4
  Store = "add"
INVARIANTS NoDoubleSite AllInCell FindsItsSite
PROPERTIES IdsStay RefusedKeeps
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS OrderIrrelevant SameShapes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS OrderIrrelevant SameShapes
CHECK_DEADLOCK FALSE

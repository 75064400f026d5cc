SPECIFICATION Spec
INVARIANTS Known
CHECK_DEADLOCK FALSE

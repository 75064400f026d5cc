SPECIFICATION Spec
CONSTANTS
  E = 1
  P = 1
  K = 2
INVARIANTS MoreDimensions AdjIsAdjugate Inverse ScaledCoefs NearDiffs WrapGood WrapCanonical EquivIsShift DistGood
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  E = 2
  P = 1
  K = 9
INVARIANTS MoreDimensions AdjIsAdjugate Inverse ScaledCoefs NearDiffs WrapGood WrapCanonical EquivIsShift DistGood
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxR = 2
  Dim3 = FALSE
INVARIANTS Textbook BoxIsMoore LengthsAgree CircleIsNearest Symmetric NotSelf PatternSizes PatternSizes3
CHECK_DEADLOCK FALSE

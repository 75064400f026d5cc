SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxR = 3
  Dim3 = FALSE
INVARIANTS Textbook BoxIsMoore LengthsAgree CircleIsNearest Symmetric NotSelf PatternSizes PatternSizes3
CHECK_DEADLOCK FALSE

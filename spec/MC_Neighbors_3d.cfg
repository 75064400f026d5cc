SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxR = 1
  Dim3 = TRUE
INVARIANTS Textbook BoxIsMoore LengthsAgree CircleIsNearest Symmetric NotSelf PatternSizes PatternSizes3
CHECK_DEADLOCK FALSE

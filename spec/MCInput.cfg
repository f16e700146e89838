SPECIFICATION Spec
CONSTANTS
  SrcLen = 5
  Caps = {1, 2, 3, 8}
  Wants = {0, 1, 2, 3, 7}
INVARIANTS Bounds Right
PROPERTIES ReturnsEnough Answered
CHECK_DEADLOCK FALSE

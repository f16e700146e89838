SPECIFICATION Spec
CONSTANTS
  DocLen = 8
  BufLen = 4
  Threshold = 2
INVARIANTS InOrder Right SameSaid
PROPERTY Ends
CHECK_DEADLOCK FALSE

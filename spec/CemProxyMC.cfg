CONSTANTS
  DEPTH = 5
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SaneOK NothingLeftOK ServedOK FoldOK IdleOK
PROPERTIES StoppedOK Ends
CHECK_DEADLOCK FALSE

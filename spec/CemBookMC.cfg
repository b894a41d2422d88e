CONSTANTS
  DEPTH = 5
  EMIT = FALSE
  NS = 2
  NG = 2
SPECIFICATION Spec
VIEW View
INVARIANTS SaneOK CountOK OrderOK
PROPERTIES RefusedOK NeverReused
CHECK_DEADLOCK FALSE

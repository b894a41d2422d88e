SPECIFICATION Spec
INVARIANTS Done Sound Telling
CONSTANTS
  EMIT = FALSE
CHECK_DEADLOCK FALSE

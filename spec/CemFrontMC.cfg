SPECIFICATION Spec
INVARIANTS Valid Alike
PROPERTY Kept
CONSTANTS
  EMIT = FALSE
  MAXSTEPS = 2
CHECK_DEADLOCK FALSE

CONSTANTS
  FAMILY = "pairs"
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SameAsRun WithinLimit Equilibrium FirstPass Prescribed ReactionsOK Partial NoLimit
PROPERTY Stops
CHECK_DEADLOCK FALSE

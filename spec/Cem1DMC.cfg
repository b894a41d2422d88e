CONSTANTS
  FAMILY = "pairs"
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SameAsRun WithinLimit Equilibrium FirstPass Prescribed ReactionsOK Partial NoLimit
CHECK_DEADLOCK FALSE

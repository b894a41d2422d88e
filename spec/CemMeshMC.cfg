CONSTANTS
  SIZES = {}
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Disjoint Complete Paths
CHECK_DEADLOCK FALSE

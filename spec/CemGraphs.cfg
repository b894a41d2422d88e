CONSTANTS
  N = 4
  KINDS = {"none", "trail", "deviation"}
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Valid ValidWithAux Built BuiltAux
CHECK_DEADLOCK FALSE

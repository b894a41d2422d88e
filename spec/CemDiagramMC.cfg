CONSTANTS
  PROFILE = "trail"
  DEPTH = 5
  EMIT = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS BuildOK RegistryOK AuxiliaryOK Idempotent HistoryFree
PROPERTY BuildFrame
CHECK_DEADLOCK FALSE

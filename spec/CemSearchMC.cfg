SPECIFICATION Spec
CONSTANTS
  MaxVal = 2
  MaxIters = 3
INVARIANTS WithinBounds OnlyParameters Reported Limited StopsAtThreshold
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Stages = 3
  MaxPoint = 4
  MaxFaults = 3
  L = 3
  EvaluateFirst = TRUE
  KeepStages = TRUE
INVARIANT Intact
INVARIANT DenseOk
CHECK_DEADLOCK FALSE

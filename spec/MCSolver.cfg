SPECIFICATION Spec
CONSTANTS
  NPoints = 5
  Emitting = FALSE
INVARIANTS
  TypeOK
  NeverBeyondBound
  Forward
  SingleSteps
  StepContract
  RunContract
  DenseFromItsStep
  InterpolateContract
  HistoryOrdered
  Emit
CHECK_DEADLOCK FALSE

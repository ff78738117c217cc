SPECIFICATION Spec
CONSTANTS
  Solvers = {a, b}
  Len_ = 2
  MaxSteps = 2
  MaxHeld = 4
  CopyIn = TRUE
  CopyOut = TRUE
INVARIANTS
  SolversUndisturbed
  CallerUndisturbed
  NothingShared
CHECK_DEADLOCK FALSE

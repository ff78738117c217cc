SPECIFICATION Spec
CONSTANT
  MaxOrder = 8
INVARIANTS
  TreeCount
  ClaimHolds
CHECK_DEADLOCK FALSE

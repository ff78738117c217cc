SPECIFICATION Spec
CONSTANTS
  Degree = 2
  Size = 6
  Emitting = FALSE
INVARIANTS
  Limited
  RootsAreRoots
  TangentVanishes
  HalleyIsHalley
  LinearAtOnce
  Bracketed
  Refused
CHECK_DEADLOCK FALSE

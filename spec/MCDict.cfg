SPECIFICATION Spec
CONSTANTS
  Emitting = FALSE
  MaxLen = 3
INVARIANTS
  OneEntryPerKey
  SameAsFunction
  Small
CHECK_DEADLOCK FALSE

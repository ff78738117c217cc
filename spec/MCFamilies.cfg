CONSTANTS
  MaxStages = 6
  MaxWeights = 4
  MaxLen = 6
  Steps = 8
SPECIFICATION Spec
INVARIANTS LengthKept StatesMet SlopesMet
CHECK_DEADLOCK FALSE

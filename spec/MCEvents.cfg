SPECIFICATION Spec
CONSTANTS
  NSteps = 3
  Emitting = FALSE
INVARIANTS
  EveryChange
  NoOther
  AtPoints
  Ordered
  AtZeros
  EndsFirst
  TerminalEnds
  Rows
CHECK_DEADLOCK FALSE

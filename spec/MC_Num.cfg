SPECIFICATION Spec
CONSTANTS
  R = 4
  Zeros = {0, 2}
  InSets = 2
  NotInRanges = TRUE
INVARIANTS VerdictIsAcceptedSet AtMostOneEach
CHECK_DEADLOCK FALSE

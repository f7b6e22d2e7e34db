SPECIFICATION GenSpec
CONSTANTS
  Procs = {1,2,3}
  MaxCalls = 4
  Steps = FALSE
  Shared = FALSE
INVARIANTS Untouched Isolated
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Procs = {1,2}
  MaxCalls = 3
  Steps = FALSE
  Shared = FALSE
INVARIANTS Untouched Isolated
CHECK_DEADLOCK FALSE

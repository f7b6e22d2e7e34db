SPECIFICATION Spec
CONSTANTS
  Procs = {1,2,3}
  MaxCalls = 3
  Steps = TRUE
  Shared = FALSE
INVARIANTS Untouched Isolated
CHECK_DEADLOCK FALSE

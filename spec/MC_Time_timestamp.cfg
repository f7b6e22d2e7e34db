SPECIFICATION Spec
CONSTANTS
 Kind = "timestamp"
 R = 4
 Sets = 2
INVARIANT Agrees
CHECK_DEADLOCK FALSE

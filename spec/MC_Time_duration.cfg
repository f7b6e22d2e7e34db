SPECIFICATION Spec
CONSTANTS
 Kind = "duration"
 R = 4
 Sets = 2
INVARIANT Agrees
CHECK_DEADLOCK FALSE

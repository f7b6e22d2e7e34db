SPECIFICATION Spec
CONSTANTS
 Last = 8
 Withins = {2, 4, 6}
INVARIANTS Interval PastOnly FutureOnly NoExpiry Near Both
CHECK_DEADLOCK FALSE

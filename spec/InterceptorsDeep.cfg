SPECIFICATION FreeSpec
CONSTANTS Calls = {1, 2}
 Depth = 5
INVARIANTS Prefix NoHalf Once NeverSent Told Isolated
CHECK_DEADLOCK FALSE

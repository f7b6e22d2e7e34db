SPECIFICATION ScriptSpec
CONSTANTS Calls = {1, 2}
 Depth = 4
INVARIANTS Prefix NoHalf Once NeverSent Told Isolated
CHECK_DEADLOCK FALSE

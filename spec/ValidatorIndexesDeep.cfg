SPECIFICATION FreeSpec
CONSTANTS Depth = 4
 FreeClasses = {"Plain", "Outer"}
 FreeImpls = {"ok", "chk", "boom", "Plain"}
INVARIANTS ExactlyThatClass Reported Acyclic
CHECK_DEADLOCK FALSE

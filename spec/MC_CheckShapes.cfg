SPECIFICATION Spec
INVARIANT OneType
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT TwoRuleCause
PROPERTY Final
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Once
INVARIANT NothingWhenBad
INVARIANT Compositional
INVARIANT TwinsApart
INVARIANT Named
INVARIANT Counted
CHECK_DEADLOCK FALSE

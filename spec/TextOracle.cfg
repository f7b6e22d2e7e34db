SPECIFICATION Spec
INVARIANTS FormatLaws BytesLaws EmptyLaw
CHECK_DEADLOCK FALSE

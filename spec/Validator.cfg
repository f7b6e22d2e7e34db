SPECIFICATION EmitSpec
INVARIANTS Sound AtMostOne Agree FirstIsHead Escaped
PROPERTY NothingLost
CHECK_DEADLOCK FALSE

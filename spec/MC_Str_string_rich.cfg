SPECIFICATION Spec
CONSTANTS
  Kind = "string"
  Alphabet = {97, 233, 8364, 128512}
  MaxLen = 3
  MaxBytes = 6
  Rich = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Kind = "string"
  Alphabet = {97, 233, 8364, 128512}
  MaxLen = 2
  MaxBytes = 6
  Rich = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE

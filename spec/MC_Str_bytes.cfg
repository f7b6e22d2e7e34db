SPECIFICATION Spec
CONSTANTS
  Kind = "bytes"
  Alphabet = {0, 97, 195, 255}
  MaxLen = 2
  MaxBytes = 6
  Rich = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE

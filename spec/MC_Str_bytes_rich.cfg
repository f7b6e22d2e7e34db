SPECIFICATION Spec
CONSTANTS
  Kind = "bytes"
  Alphabet = {0, 97, 195, 255}
  MaxLen = 3
  MaxBytes = 6
  Rich = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE

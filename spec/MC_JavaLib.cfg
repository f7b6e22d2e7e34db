SPECIFICATION Spec
CONSTANTS StrLen = 3
 ListLen = 4
INVARIANTS Complement SetLaw RangeLaw LengthLaw AffixLaw
CHECK_DEADLOCK FALSE

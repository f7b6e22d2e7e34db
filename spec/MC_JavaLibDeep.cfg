SPECIFICATION Spec
CONSTANTS StrLen = 4
 ListLen = 6
INVARIANTS Complement SetLaw RangeLaw LengthLaw AffixLaw
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Threshold = 2
  Frame = 2
  Bounded = TRUE
  Escape = TRUE
  CheckPlain = TRUE
INVARIANTS CallAllowed EndAllowed SentAllowed
CHECK_DEADLOCK FALSE

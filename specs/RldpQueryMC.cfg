SPECIFICATION Spec
CONSTANTS
  Life = 7
  Give = 3
  MaxAge = 3
  MaxNet = 4
  End = 30
INVARIANTS AtMostOnce Genuine Known Empty
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Total = 3
  Double = FALSE
  Jobs <- JobsDef
INVARIANTS AtMostOnce ExactlyOnce
CHECK_DEADLOCK FALSE

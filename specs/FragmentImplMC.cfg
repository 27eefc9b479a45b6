SPECIFICATION Spec
CONSTANTS
  Total = 3
  Double = TRUE
  Jobs <- JobsDef
INVARIANTS AtMostOnce ExactlyOnce
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Consumers = {1, 2}
  Values = 4
  Drops = 3
  ValueFirst = TRUE
  Returned = FALSE
INVARIANTS InOrder Told
PROPERTY Served
CHECK_DEADLOCK FALSE

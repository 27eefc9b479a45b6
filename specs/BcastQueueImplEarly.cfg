SPECIFICATION Spec
CONSTANTS
  Consumers = {1, 2}
  Values = 4
  Drops = 3
  ValueFirst = FALSE
  Returned = TRUE
INVARIANTS InOrder Told
PROPERTY Served
CHECK_DEADLOCK FALSE

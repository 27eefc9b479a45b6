SPECIFICATION Spec
CONSTANTS
  Consumers = {1, 2, 3}
  Values = 5
  Drops = 3
  ValueFirst = TRUE
  Returned = TRUE
INVARIANTS InOrder Told Available
PROPERTY Served
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Consumers = {1, 2}
  Values = 4
  Drops = 3
  ValueFirst = TRUE
  Returned = TRUE
INVARIANTS InOrder Told Available
PROPERTY Served
CHECK_DEADLOCK FALSE

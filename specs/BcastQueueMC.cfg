SPECIFICATION Spec
CONSTANTS
  Consumers = {1, 2}
  Values = 3
  Depth = 6
INVARIANTS InOrder Emit
CHECK_DEADLOCK FALSE

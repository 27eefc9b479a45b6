SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Writes = TRUE
  Pairs = {1}
INVARIANTS DroppedExactly Timer Emit
CHECK_DEADLOCK FALSE

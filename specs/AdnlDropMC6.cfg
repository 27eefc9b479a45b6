SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Writes = FALSE
  Pairs = {1}
INVARIANTS DroppedExactly Timer Emit
CHECK_DEADLOCK FALSE

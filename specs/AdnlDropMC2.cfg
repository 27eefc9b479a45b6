SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Writes = FALSE
  Pairs = {1, 2}
INVARIANTS DroppedExactly Timer Emit
CHECK_DEADLOCK FALSE

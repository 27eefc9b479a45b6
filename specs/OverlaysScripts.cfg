SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Handlers = {1, 2}
  Depth = 4
  Scripts = TRUE
  Mixed = FALSE
INVARIANTS Emit OwnOnly All
PROPERTIES Isolated FirstKept
CHECK_DEADLOCK FALSE

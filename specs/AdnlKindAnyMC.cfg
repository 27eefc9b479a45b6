SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Writes = FALSE
  Limit = 0
INVARIANTS FewLost AsWanted HeardIsKnown
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Writes = TRUE
  Limit = 11
INVARIANTS FewLost AsWanted HeardIsKnown Emit
CHECK_DEADLOCK FALSE

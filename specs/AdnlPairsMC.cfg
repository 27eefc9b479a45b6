SPECIFICATION Spec
CONSTANTS
  Locals = {1, 2}
  Depth = 4
  Writes = TRUE
INVARIANTS OwnKeys ChannelOfKnown Emit
PROPERTY Apart
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Locals = {1, 2}
  Peers = {1, 2}
  Addrs = {1, 2}
  Depth = 3
INVARIANTS KnownIsLast ChannelsOfKnown Emit
PROPERTIES Apart
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Locals = {1, 2}
  Peers = {1, 2}
  Addrs = {1, 2}
  Depth = 4
INVARIANTS KnownIsLast ChannelsOfKnown
PROPERTIES Apart
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  Locals = {1, 2}
  Peers = {1, 2}
INVARIANT ChannelsOfKnown
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

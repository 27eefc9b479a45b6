SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2, 3, 4}
  Caps = {1, 2, 3}
  Depth = 4
INVARIANTS Inv Emit
PROPERTIES EvictsOldest VersionCounts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2}
  Vers = {1, 2}
  Caps = {1, 2}
  Depth = 4
  Fixed = TRUE
INVARIANTS Emit KnownIsEver ActiveIsNotGone BestIsNewest ChosenAreActive NotOurselves
CHECK_DEADLOCK FALSE

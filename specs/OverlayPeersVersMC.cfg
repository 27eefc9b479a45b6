SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2}
  Vers = {1, 2, 3}
  Caps = {1}
  Depth = 4
  Fixed = FALSE
INVARIANTS KnownIsEver ActiveIsNotGone BestIsNewest ChosenAreActive NotOurselves
PROPERTIES Stable LearntOnly
CHECK_DEADLOCK FALSE

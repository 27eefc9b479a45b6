SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2, 3}
  Vers = {1}
  Caps = {1, 2}
  Depth = 4
  Fixed = FALSE
INVARIANTS KnownIsEver ActiveIsNotGone BestIsNewest ChosenAreActive NotOurselves
PROPERTIES Stable LearntOnly
CHECK_DEADLOCK FALSE

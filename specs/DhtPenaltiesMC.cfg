SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2}
  Vers = {1, 2}
  Threshold = 5
  Depth = 6
  What = {"query"}
INVARIANTS Genuine Redeemable Skipped Emit
PROPERTY Monotone

CHECK_DEADLOCK FALSE

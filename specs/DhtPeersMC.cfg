SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2}
  Vers = {1, 2}
  Threshold = 5
  Depth = 3
  What = {"announce"}
INVARIANTS Genuine Newest Newest Redeemable Skipped Emit
PROPERTY Monotone

CHECK_DEADLOCK FALSE

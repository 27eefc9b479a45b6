SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2}
  Vers = {1, 2}
  Threshold = 5
  Depth = 5
  What = {"announce", "query"}
INVARIANTS Genuine Newest Redeemable Skipped 
PROPERTY Monotone
VIEW view
CHECK_DEADLOCK FALSE

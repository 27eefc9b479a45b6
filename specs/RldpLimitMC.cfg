SPECIFICATION Spec
CONSTANTS
  Peers = {1, 2}
  Max = 2
  N = 4
  Depth = 6
INVARIANTS Limit Emit
PROPERTY Allowed
CHECK_DEADLOCK FALSE

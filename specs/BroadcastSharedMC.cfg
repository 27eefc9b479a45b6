SPECIFICATION Spec
CONSTANTS
  Depth = 4
  T = 1
  Slack = 0
  Start = 1
  Dates = {1}
  What = {"fec", "other"}
  Verify = TRUE
  Shared = TRUE
  KeepFor = 2
INVARIANTS Arrives
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 4
  T = 1
  Slack = 0
  Start = 1
  Dates = {1}
  What = {"fec", "forge"}
  Verify = FALSE
  Shared = FALSE
  KeepFor = 2
INVARIANTS Arrives
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 6
  T = 1
  Slack = 0
  Start = 1
  Dates = {0, 1, 2, 4}
  What = {"fec", "ord", "own", "pass"}
  Verify = TRUE
  Shared = FALSE
  KeepFor = 2
INVARIANTS Once Authentic Relayed
VIEW view
CHECK_DEADLOCK FALSE

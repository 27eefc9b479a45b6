SPECIFICATION Spec
CONSTANTS
  Depth = 5
  T = 1
  Slack = 0
  Start = 1
  Dates = {0, 1, 2}
  What = {"fec", "ord", "own", "pass"}
  Verify = TRUE
  Shared = FALSE
  KeepFor = 2
INVARIANTS Once Authentic Relayed Emit
VIEW view
CHECK_DEADLOCK FALSE

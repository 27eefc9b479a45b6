SPECIFICATION Spec
CONSTANTS
  Depth = 4
  T = 1
  Slack = 0
  Start = 1
  Dates = {1}
  What = {"fec", "ord", "own", "other", "lie", "forge", "par"}
  Verify = TRUE
  Shared = FALSE
  KeepFor = 2
INVARIANTS Once Authentic Honest Relayed Arrives OrdArrives
VIEW view
CHECK_DEADLOCK FALSE

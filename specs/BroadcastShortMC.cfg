SPECIFICATION Spec
CONSTANTS
  Depth = 6
  T = 1
  Slack = 0
  Start = 1
  Dates = {1, 2}
  What = {"ord", "pass"}
  Verify = TRUE
  Shared = FALSE
  KeepFor = 1
INVARIANTS Once
VIEW view
CHECK_DEADLOCK FALSE

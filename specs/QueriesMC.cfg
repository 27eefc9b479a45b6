SPECIFICATION Spec
CONSTANTS
  N = 2
  Timeouts = {100, 500}
  Answers = {3, 7}
  Depth = 5
INVARIANTS AtMostOnce Genuine NothingKept Over Emit
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 3
  Affs = {0, 1, 2}
  Batches = {0, 1, 2}
  Outcomes = {"value", "node", "none"}
  Parallel = 6
  SkipFirst = FALSE
  DropNear = FALSE
INVARIANTS Once Bounded OnlyGood Enough Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

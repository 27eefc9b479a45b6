SPECIFICATION Spec
CONSTANTS
  N = 4
  Affs = {0, 1}
  Batches = {0, 2}
  Outcomes = {"value", "node", "none"}
  Parallel = 2
  SkipFirst = FALSE
  DropNear = FALSE
INVARIANTS Once Bounded OnlyGood Enough
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 3
  Affs = {0, 1, 2}
  Batches = {0, 1, 2}
  Outcomes = {"value", "node", "none"}
  Parallel = 6
  SkipFirst = TRUE
  DropNear = FALSE
INVARIANTS Once Bounded OnlyGood Enough

CHECK_DEADLOCK FALSE

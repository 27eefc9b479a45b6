SPECIFICATION Spec
CONSTANTS
  N = 4
  Affs = {0, 1, 2}
  Batches = {0, 1, 2}
  Outcomes = {"value", "node", "none"}
  Parallel = 6
  SkipFirst = FALSE
  DropNear = TRUE
INVARIANTS Once Bounded OnlyGood Enough

CHECK_DEADLOCK FALSE

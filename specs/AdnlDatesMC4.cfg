SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Writes = FALSE
INVARIANTS Grows RefusesStale NothingFromStale NewStartsFresh Tells OurGrows Reachable Recovers Emit
CHECK_DEADLOCK FALSE

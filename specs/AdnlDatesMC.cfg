SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Writes = TRUE
INVARIANTS Grows RefusesStale NothingFromStale NewStartsFresh Tells OurGrows Reachable Recovers Emit
CHECK_DEADLOCK FALSE

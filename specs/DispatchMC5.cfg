SPECIFICATION Spec
CONSTANTS
  MaxSubs = 3
  Depth = 5
INVARIANTS OnceInOrder NothingBeforeStart
CHECK_DEADLOCK FALSE

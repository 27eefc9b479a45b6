SPECIFICATION Spec
CONSTANTS
  MaxSubs = 2
  Depth = 4
INVARIANTS OnceInOrder NothingBeforeStart Emit
CHECK_DEADLOCK FALSE

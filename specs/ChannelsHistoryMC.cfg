SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Faults = 2
  History = TRUE
  Writes = FALSE
  Known0 = TRUE
INVARIANTS Agreed Opens2 Heals
CHECK_DEADLOCK FALSE

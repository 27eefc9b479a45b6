SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Faults = 2
  History = FALSE
  Writes = FALSE
  Known0 = TRUE
INVARIANTS Agreed Opens2 Heals
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 8
  Faults = 2
  History = TRUE
  Writes = FALSE
  Known0 = TRUE
INVARIANTS Agreed Opens2 Heals
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Faults = 2
  History = FALSE
  Writes = TRUE
  Known0 = TRUE
INVARIANTS Agreed Opens2 Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Faults = 2
  History = FALSE
  Writes = FALSE
  Known0 = FALSE
INVARIANTS Agreed Opens2
CHECK_DEADLOCK FALSE

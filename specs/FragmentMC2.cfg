SPECIFICATION Spec
CONSTANTS
  Timeout = 3000
  Keys = {1, 2}
  Length = 4
  Bad = FALSE
  Depth = 4
INVARIANTS Gone Ends Faithful
PROPERTIES DeliveredIffComplete
VIEW View
CHECK_DEADLOCK FALSE

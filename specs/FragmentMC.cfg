SPECIFICATION Spec
CONSTANTS
  Timeout = 3000
  Keys = {1}
  Length = 3
  Bad = TRUE
  Depth = 4
INVARIANTS Gone Ends Faithful Emit
PROPERTIES DeliveredIffComplete
VIEW View
CHECK_DEADLOCK FALSE

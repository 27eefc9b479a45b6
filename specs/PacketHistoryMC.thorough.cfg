SPECIFICATION Spec
CONSTANTS
  H = {1}
  Window = 256
  Numbers = {0, 1, 255, 256, 257, 512}
  Depth = 5
INVARIANTS HighIsMax Emit
PROPERTY Once
CHECK_DEADLOCK FALSE

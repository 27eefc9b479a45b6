SPECIFICATION TSpec
CONSTANTS
  H = {1, 2, 3, 4}
  Window = 256
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

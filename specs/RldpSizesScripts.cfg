SPECIFICATION Spec
CONSTANTS
  Limits = {200, 2000, 40000}
  Contents = {"random", "flat", "packed"}
  Sizes = {"under", "near", "over"}
INVARIANT Emit
CHECK_DEADLOCK FALSE

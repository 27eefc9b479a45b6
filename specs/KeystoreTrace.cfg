SPECIFICATION TSpec
CONSTANTS
  Keys = {1, 2, 3, 4}
  Tags = {1, 2, 3, 4}
INVARIANT OneToOne
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANTS Agreed Opens2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Timeout = 3000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

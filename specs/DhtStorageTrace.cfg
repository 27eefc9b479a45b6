SPECIFICATION TSpec
CONSTANT Lag = 11
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

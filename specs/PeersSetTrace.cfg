SPECIFICATION TSpec
INVARIANT AllBounded
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

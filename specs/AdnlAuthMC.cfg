SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS NothingFromForged GenuineAccepted ReadyByPeer Emit
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  Peers = {1, 2}
  Rest = 60000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

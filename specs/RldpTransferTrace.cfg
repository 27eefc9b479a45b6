SPECIFICATION TSpec
CONSTANTS
  Small = 64
  Every = 10
  Extra = 4
  Life = 19000
  MinTimeout = 500
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

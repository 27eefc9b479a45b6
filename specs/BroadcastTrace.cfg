SPECIFICATION TSpec
CONSTANTS
  Slack = 1
  MoreThanEnough = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  Retention = 19000
  Prompt = 300
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

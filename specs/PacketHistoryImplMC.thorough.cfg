SPECIFICATION Fair
CONSTANTS
  Threads = {t1, t2, t3}
  B = 2
  MaxSeq = 8
  Counter = 3
  MaxCalls = 3
  UseCounter = TRUE
  MoveIndex = TRUE
  SetBitOnMove = TRUE
INVARIANT NeverBad
PROPERTY Returns
CHECK_DEADLOCK FALSE

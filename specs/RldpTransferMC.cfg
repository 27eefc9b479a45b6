SPECIFICATION Spec
CONSTANTS
  Every = 2
  Extra = 1
  Small = 8
  Life = 1000
  MaxEsi = 4
  MaxNet = 2
INVARIANTS TypeOK Behind Over Once Whole Heals
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Every = 2
  Extra = 1
  Small = 8
  Life = 1000
  MaxEsi = 5
  MaxNet = 3
INVARIANTS TypeOK Behind Over Once Whole Heals
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Small = 8
  Every = 2
  Extra = 1
  Life = 1000
  Depth = 4
  Esis = {0, 1, 2}
INVARIANTS TypeOK Bounded Whole InOrder Honest Emit
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Tags = {1, 2, 3}
  Depth = 4
INVARIANTS OneToOne LookupsAgree Emit
PROPERTY StableMC
CHECK_DEADLOCK FALSE

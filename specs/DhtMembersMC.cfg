SPECIFICATION Spec
CONSTANTS
  Kinds = {"members"}
  Keys = {1}
  Depth = 3
  MaxNow = 4
  Bads <- SomeBads
  AllLists = FALSE
INVARIANTS Latest NewestEntries Emit

CHECK_DEADLOCK FALSE

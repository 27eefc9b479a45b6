SPECIFICATION Spec
CONSTANTS
  Kinds = {"signed"}
  Keys = {1, 2}
  Depth = 4
  MaxNow = 4
  Bads <- SomeBads
  AllLists = FALSE
INVARIANTS Latest NewestEntries Emit

CHECK_DEADLOCK FALSE

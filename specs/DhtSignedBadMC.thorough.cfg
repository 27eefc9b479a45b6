SPECIFICATION Spec
CONSTANTS
  Kinds = {"signed"}
  Keys = {1, 2}
  Depth = 6
  MaxNow = 4
  Bads <- SomeBads
  AllLists = FALSE
INVARIANTS Latest NewestEntries
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Kinds = {"members"}
  Keys = {1}
  Depth = 4
  MaxNow = 4
  Bads <- SomeBads
  AllLists = FALSE
INVARIANTS Latest NewestEntries
VIEW view
CHECK_DEADLOCK FALSE

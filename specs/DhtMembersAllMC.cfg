SPECIFICATION Spec
CONSTANTS
  Kinds = {"members"}
  Keys = {1}
  Depth = 3
  MaxNow = 4
  Bads <- AllBads
  AllLists = TRUE
INVARIANTS Latest NewestEntries
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Kinds = {"signed"}
  Keys = {1}
  Depth = 5
  MaxNow = 4
  Bads <- AllBads
  AllLists = FALSE
INVARIANTS Latest NewestEntries
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2, 3}
  Depth = 3
  Bug = "first"
INVARIANTS Kept Merged Genuine Seen FoundOnly
VIEW view
CHECK_DEADLOCK FALSE

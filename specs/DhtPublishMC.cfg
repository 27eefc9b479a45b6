SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2, 3}
  Depth = 3
  Bug = "none"
INVARIANTS Kept Merged Genuine Seen FoundOnly Emit
VIEW view
CHECK_DEADLOCK FALSE

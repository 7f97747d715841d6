CONSTANTS
  Depth = 3
  Emit = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Agree Lengths Normal Orders
CHECK_DEADLOCK FALSE

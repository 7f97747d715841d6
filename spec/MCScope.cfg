CONSTANTS
  Depth0 = 2
  Depth1 = 1
  Emit = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Accepted Innermost Saved
CHECK_DEADLOCK FALSE

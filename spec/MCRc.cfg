CONSTANTS
  Fams = {"r", "a", "u"}
  NS = 3
  Depth = 6
  Extra = {}
  Emit = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Accepted NoUseAfterFree Alive Memory
CHECK_DEADLOCK FALSE

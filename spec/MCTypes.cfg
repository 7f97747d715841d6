SPECIFICATION Spec
INVARIANTS Sound Consistent
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2

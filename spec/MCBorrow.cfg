SPECIFICATION Spec
INVARIANTS Sound Exact
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 5
  MaxViews = 2
  Abstract = TRUE

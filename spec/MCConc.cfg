SPECIFICATION Spec
CONSTANTS
  Fam = "arc"
  PerThread = 2
  Total = 3
  Shapes = {}
  Weak = {}
INVARIANT Contract
INVARIANT Counts
INVARIANT Progress
CHECK_DEADLOCK FALSE

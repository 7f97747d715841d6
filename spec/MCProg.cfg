CONSTANTS
  Fam = "arc"
  PerThread = 2
  Total = 3
SPECIFICATION Spec
INVARIANT Distinct
CHECK_DEADLOCK FALSE

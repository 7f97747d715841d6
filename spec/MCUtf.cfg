CONSTANTS
  MaxBytes = 3
  MaxUnits = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS SameJudgement RoundTrip ErrorRight
CHECK_DEADLOCK FALSE

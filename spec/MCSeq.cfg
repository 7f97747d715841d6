CONSTANTS
  MaxLen = 3
  MaxLen1 = 2
  Ns = {2}
  Vals2 = {1, 2}
  Emit = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Small
INVARIANTS Accepted Sane
CHECK_DEADLOCK FALSE

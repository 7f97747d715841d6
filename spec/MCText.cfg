CONSTANTS
  MaxLen = 2
  MaxLen1 = 1
  Alpha = {97, 233, 8364, 119070}
  Emit = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Small
INVARIANTS Accepted Utf8 Boundaries Memory
CHECK_DEADLOCK FALSE

CONSTANTS NL = 3
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Back OnLiveBuses
CHECK_DEADLOCK FALSE

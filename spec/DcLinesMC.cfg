CONSTANTS NL = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Back OnLiveBuses
CHECK_DEADLOCK FALSE

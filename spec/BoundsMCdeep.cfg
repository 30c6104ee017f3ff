SPECIFICATION Spec
CONSTANTS
  MaxVars = 3
  MaxRows = 2
  Emit = TRUE
INVARIANTS RightPlace EachOnce Emits
CHECK_DEADLOCK FALSE

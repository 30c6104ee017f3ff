SPECIFICATION Spec
CONSTANTS N = 3
          Emit = TRUE
INVARIANT AboutItsUnit
INVARIANT Back
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 4
          Emit = FALSE
INVARIANT AboutItsUnit
INVARIANT Back
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NL = 4
          Emit = FALSE
INVARIANT OnlyLive
INVARIANT Back
CHECK_DEADLOCK FALSE

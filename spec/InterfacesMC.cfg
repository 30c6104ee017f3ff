SPECIFICATION Spec
CONSTANTS NL = 3
          Emit = TRUE
INVARIANT OnlyLive
INVARIANT Back
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 4
          Emit = TRUE
INVARIANT Sound
INVARIANT Emits
PROPERTY Frame
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 5
          Emit = TRUE
INVARIANT Sound
INVARIANT Emits
PROPERTY Frame
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 3
          Emit = TRUE
INVARIANT Codes
INVARIANT Emits
PROPERTY Isolated
PROPERTY FilesStay
PROPERTY SavedIsFound
CHECK_DEADLOCK FALSE

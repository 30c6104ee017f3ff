SPECIFICATION Spec
CONSTANTS Depth = 4
          Emit = FALSE
INVARIANT Codes
INVARIANT Emits
PROPERTY Isolated
PROPERTY FilesStay
PROPERTY SavedIsFound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxN = 1
  Emit = TRUE
INVARIANTS BlocksPartition Shapes Emits
PROPERTY Stable
CHECK_DEADLOCK FALSE

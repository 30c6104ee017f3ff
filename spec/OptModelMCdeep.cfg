SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxN = 1
  Emit = TRUE
INVARIANTS BlocksPartition Shapes Emits
PROPERTY Stable
CHECK_DEADLOCK FALSE

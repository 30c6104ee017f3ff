SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Honest WithinLimit AtOnce Prefix
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NB = 3 NG = 2 NL = 1 Emitting = TRUE
INVARIANTS InternalIsCanonical NoResultNoChange OutOfServiceUntouched StructureKept Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NB = 3 NG = 3 NL = 2 Emitting = TRUE
INVARIANTS InternalIsCanonical NoResultNoChange OutOfServiceUntouched StructureKept Emit
CHECK_DEADLOCK FALSE

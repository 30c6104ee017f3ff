SPECIFICATION Spec
CONSTANTS NB = 3 NG = 3 Emitting = TRUE
INVARIANTS Acceptable Controllable
PROPERTY NoPromotion
CHECK_DEADLOCK FALSE

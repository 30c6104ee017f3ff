SPECIFICATION Spec
CONSTANTS NB = 3 NG = 4 Emitting = FALSE
INVARIANTS Acceptable Controllable
PROPERTY NoPromotion
CHECK_DEADLOCK FALSE

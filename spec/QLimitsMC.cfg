SPECIFICATION Spec
CONSTANTS NB = 3 NU = 3
INVARIANTS Conserved OneReference Progress FixedBusesAreLoadBuses UntouchedBusesKeepControl
CHECK_DEADLOCK FALSE

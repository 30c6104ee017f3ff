SPECIFICATION Spec
CONSTANTS NB = 3 NU = 4
INVARIANTS Conserved OneReference Progress FixedBusesAreLoadBuses UntouchedBusesKeepControl
CHECK_DEADLOCK FALSE

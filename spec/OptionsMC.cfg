SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = TRUE
INVARIANTS Complete OnlyWhatWasNamed Emits
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE

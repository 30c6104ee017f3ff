SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE
INVARIANTS Complete OnlyWhatWasNamed Emits
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE

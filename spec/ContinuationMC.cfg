SPECIFICATION Spec
CONSTANTS Nose = 4
          Big = 3
          Emit = TRUE
INVARIANT Forward
INVARIANT Truthful
INVARIANT NeverPast
INVARIANT Able
CHECK_DEADLOCK FALSE

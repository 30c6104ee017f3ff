SPECIFICATION Spec
CONSTANTS Nose = 7
          Big = 4
          Emit = FALSE
INVARIANT Forward
INVARIANT Truthful
INVARIANT NeverPast
INVARIANT Able
CHECK_DEADLOCK FALSE

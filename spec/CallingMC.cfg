SPECIFICATION Spec
CONSTANTS Depth = 1
          Empties = 2
          Emit = TRUE
INVARIANT GivenWins
INVARIANT NothingMadeUp
INVARIANT TogetherOrNot
INVARIANT CaseSpeaks
INVARIANT Emits
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 2
          Empties = 1
          Emit = FALSE
INVARIANT GivenWins
INVARIANT NothingMadeUp
INVARIANT TogetherOrNot
INVARIANT CaseSpeaks
INVARIANT Emits
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
          Costs = {0, 1, 2, 3}
          Shed = FALSE
INVARIANT ShedsWhatHelps
INVARIANT NeverWorse
INVARIANT StrictlyBetter
INVARIANT LocallyBest
INVARIANT OnlyHeld
INVARIANT Foretold
CHECK_DEADLOCK FALSE

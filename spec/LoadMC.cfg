SPECIFICATION Spec
CONSTANTS Depth = 1
          Ps = {0, 3}
INVARIANT PartsAddUp
PROPERTY MeetsTarget
PROPERTY MeetsFactor
PROPERTY OthersStay
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 1
          Fs <- Fs1
          Os = {"none", "plain", "dc", "other", "report", "bad"}
          Reps = {"", "r1", "bad"}
          Savs = {"", "s", "s.mat"}
          Srcs = {"dict", "file", "name"}
          Cases = {"easy", "hard"}
          MaxArgs = 3
          Emit = TRUE
INVARIANT Reported
INVARIANT InOrder
INVARIANT DcVariant
INVARIANT Orderly
INVARIANT Emits
PROPERTY Added
PROPERTY Frame
CHECK_DEADLOCK FALSE

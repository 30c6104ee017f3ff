SPECIFICATION Spec
CONSTANTS Depth = 2
          Fs = {"runpf", "rundcpf", "runopf"}
          Os = {"plain", "other", "bad"}
          Reps = {"", "r1", "r2"}
          Savs = {"s.py", "t.py", ""}
          Srcs = {"dict", "s.py"}
          Cases = {"easy"}
          MaxArgs = 0
          Emit = TRUE
INVARIANT Reported
INVARIANT InOrder
INVARIANT DcVariant
INVARIANT Orderly
INVARIANT Emits
PROPERTY Added
PROPERTY Frame
CHECK_DEADLOCK FALSE

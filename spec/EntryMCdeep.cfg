SPECIFICATION Spec
CONSTANTS Depth = 3
          Fs = {"runpf", "rundcpf", "runopf"}
          Os = {"plain", "bad"}
          Reps = {"", "r1"}
          Savs = {"s.py", ""}
          Srcs = {"dict", "s.py"}
          Cases = {"easy"}
          MaxArgs = 0
          Emit = FALSE
INVARIANT Reported
INVARIANT InOrder
INVARIANT DcVariant
INVARIANT Orderly
INVARIANT Emits
PROPERTY Added
PROPERTY Frame
CHECK_DEADLOCK FALSE

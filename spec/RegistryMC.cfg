SPECIFICATION Spec
CONSTANTS Depth = 3 Fs = {"f", "g"} Ss = {"ext2int", "printpf"} Ext = {"reserves"} Emit = TRUE
INVARIANTS OnlyWhatWasRegistered NoDuplicatesUnlessAllowed OffUndoesOn RemoveUndoesAdd RemovesOne Emits
CHECK_DEADLOCK FALSE
